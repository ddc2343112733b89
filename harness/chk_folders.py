"""C24: instrumented folders and commands (spec/Folders.tla)"""
import contextlib
import os
import random
import tempfile
import typing as tp
from pathlib import Path

import numpy as np
from nevergrad.parametrization import FolderFunction, instantiate
from nevergrad.parametrization.utils import CommandFunction, FailedJobError

from common import Check, split_cfg
from util import collect, pmap

TOKEN = "@nevergrad" + "@"
COMMENTS = {"py": "#", "c": "//", "h": "//", "cpp": "//", "hpp": "//", "m": "%", "cu": "//", "sh": "#"}


@contextlib.contextmanager
def scratch() -> tp.Iterator[Path]:
    """scratch folder, in which the temporary folders of the code under test are created as well"""
    with tempfile.TemporaryDirectory(prefix="verif_c24_") as folder:
        root = Path(folder)
        (root / "tmp").mkdir()
        saved = tempfile.tempdir
        tempfile.tempdir = str(root / "tmp")
        try:
            yield root
        finally:
            tempfile.tempdir = saved


def value(rng: random.Random, depth: int = 0) -> tp.Any:
    """python value and its structure"""
    kind = rng.choice(["int", "float", "str", "list", "array", "array", "bool"])
    if kind == "array":
        shape = rng.choice([(2,), (1,), (2, 2), (1, 3)])
        arr: tp.Any = np.array([rng.randint(-9, 9) for _ in range(int(np.prod(shape)))]).reshape(shape)
        if rng.random() < 0.5:
            arr = arr + 0.5

        def tree(x: tp.Any) -> tp.Any:
            return dict(t="arr", c=[tree(y) for y in x]) if isinstance(x, list) else dict(t="one", s=repr(x))

        return arr, tree(arr.tolist())
    v: tp.Any = dict(int=rng.randint(-9, 99), float=rng.uniform(-3, 3), str=rng.choice(["a b", "", "NG_ARG{n1}", "it's", "\\1", "[x]", "NG_ARG{zz|c}"]), list=[1, 2], bool=True)[kind]
    return v, dict(t="one", s=repr(v))


def texts(job: tp.Any) -> tp.Any:
    rng = random.Random(f"text{job}")
    names = [f"n{i}" for i in range(1, 7)]
    if rng.random() < 0.5:
        names = rng.sample(["alpha", "beta_2", "X", "lr", "x1", "long_name", "_u"], 6)
    rng.shuffle(names)
    dup = rng.random() < 0.1
    paths = sorted(rng.sample(["a.py", "b.cpp", "sub/c.h", "sub/d.m", "e.txt", "sub/deep/f.py", "g.hpp", "h.c", "README", "k.cu", "sub.py", ".hidden.py", "l.H", "z.PY"], rng.randint(1, 5)), key=Path)
    register = rng.random() < 0.5
    files = []
    pos = 0
    with scratch() as root, contextlib.ExitStack() as stack:
        folder = root / "project"
        contents = {}
        if register:
            FolderFunction.register_file_type(rng.choice([".cu", "cu"]), "//")
            stack.callback(instantiate.COMMENT_CHARS.pop, ".cu", None)
        for path in paths:
            ext = Path(path).suffix[1:].lower()
            plain = ext not in COMMENTS or ext == "sh" or (ext == "cu" and not register)
            lines, raw = [], []
            for _ in range(rng.randint(1, 5)):
                items = []
                for _ in range(rng.randint(1, 4)):
                    if rng.random() < 0.35 and (pos < len(names) or (dup and pos)):
                        name = names[pos] if pos < len(names) and not (dup and pos and rng.random() < 0.3) else names[0]
                        pos += name == names[min(pos, len(names) - 1)]
                        items.append(dict(t="arg", s=name))
                    else:
                        items.append(dict(t="txt", s=rng.choice(["x = ", "+ 1", "foo(", ")", " # note", "{", "}", "NG_ARG;", "é", "", "\t"])))
                com = rng.choice(["", "", "|a comment", "|x=12|y", "|(1, 2)"])
                text = "".join(x["s"] if x["t"] == "txt" else "NG_ARG{" + x["s"] + com + "}" for x in items)
                ind = " " * rng.choice([0, 0, 2, 4])
                tok = rng.choice([0, 0, 0, 1, 1, 1, 2 if rng.random() < 0.1 else 0])
                if plain and tok:
                    tok = 0
                if tok and items[0]["t"] == "txt" and items[0]["s"].startswith(("\t",)):
                    tok = 0
                if tok and not text.strip(" "):
                    items, text = [dict(t="txt", s="z")], "z"
                if tok:
                    # spaces after the token are removed
                    items[0] = dict(items[0], s=items[0]["s"].lstrip(" ")) if items[0]["t"] == "txt" else items[0]
                    text = "".join(x["s"] if x["t"] == "txt" else "NG_ARG{" + x["s"] + com + "}" for x in items)
                    text = text.lstrip(" ")
                    while items and items[0]["t"] == "txt" and not items[0]["s"].strip(" "):
                        items.pop(0)
                    if items and items[0]["t"] == "txt":
                        items[0] = dict(items[0], s=items[0]["s"].lstrip(" "))
                    mark = COMMENTS[ext] + rng.choice(["", " ", "  "]) + TOKEN + rng.choice(["", " ", "   "])
                    raw.append(ind + mark + text if tok == 1 else ind + "x" + mark + text)
                else:
                    raw.append(ind + text)
                lines.append(dict(ind=ind, tok=tok, items=items))
            if not raw[-1]:
                raw[-1], lines[-1] = "z", dict(ind="", tok=0, items=[dict(t="txt", s="z")])
            fp = folder / path
            fp.parent.mkdir(parents=True, exist_ok=True)
            content = "\n".join(raw) + ("\n" if rng.random() < 0.5 else "")
            fp.write_text(content)
            contents[path] = content
            files.append(dict(path=path, ext=ext, plain=plain, lines=lines))
        e: tp.Dict[str, tp.Any] = dict(k="text", files=files, loaded=False, names=[], given=[], vals={}, accepted=False, texts=[], same=True)
        used = [x["s"] for f in files if not f["plain"] for ln in f["lines"] for x in ln["items"] if x["t"] == "arg"]
        given = dict((n, value(rng)) for n in used)
        mode = rng.random()
        if mode < 0.1 and given:
            given.pop(rng.choice(sorted(given)))
        elif mode < 0.2:
            given["unknown"] = value(rng)
        e["given"] = sorted(given)
        e["vals"] = {n: v[1] for n, v in given.items()} or {"-": dict(t="one", s="")}
        inst: tp.Any = None
        try:
            inst = instantiate.FolderInstantiator(rng.choice([folder, str(folder)]), clean_copy=rng.random() < 0.3)
            e["loaded"] = True
            e["names"] = [p.name for p in inst.placeholders]
        except (RuntimeError, AssertionError):
            pass
        if inst is not None:
            try:
                with inst.instantiate(**{n: v[0] for n, v in given.items()}) as out:
                    e["accepted"] = True
                    assert out.name == "project"
                    e["texts"] = [(out / p).read_text().splitlines() for p in paths]
                    instrumented = {f["path"] for f in files if not f["plain"] and any(x["t"] == "arg" for ln in f["lines"] for x in ln["items"])}
                    e["same"] = all((out / p).read_text() == contents[p] for p in paths if p not in instrumented)
                    e["same"] &= sorted(str(p.relative_to(out)) for p in out.glob("**/*")) == sorted(str(p.relative_to(folder)) for p in folder.glob("**/*"))
            except (AssertionError, KeyError, RuntimeError):
                e["accepted"] = False
        e["orig"] = all((folder / p).read_text() == c and not (folder / p).is_symlink() for p, c in contents.items())
        del inst
    return dict(cfg=dict(x=0), ev=[e], info=dict(job=job, contents=contents))


def life(job: tp.Any) -> tp.Any:
    """history of a folder"""
    hist, num = job
    rng = random.Random(f"life{job}")
    ev = []
    with scratch() as root:
        folder = root / "project"
        (folder / "data").mkdir(parents=True)
        tpl, oth = folder / "main.py", folder / "data" / "other.txt"
        tpl.write_text("1\nNG_ARG{a}\nNG_ARG{b|comment}\n")
        oth.write_text("1")
        users: tp.List[tp.Any] = []
        insts: tp.List[tp.Any] = []
        versions = dict(template=1, other=1)
        copies = root / "copies"
        copies.mkdir()
        if rng.random() < 0.5:
            os.environ["CLEAN_COPY_DIRECTORY"] = str(copies)
        try:
            for e in hist:
                op, err, out = e["op"], False, [0, 0, 0]
                val = rng.randint(-99, 99)
                try:
                    if op == "load":
                        func = FolderFunction(folder, ["true"], clean_copy=e["clean"])
                        users.append(func)
                    elif op in ["template", "other"]:
                        versions[op] += 1
                        if op == "template":
                            tpl.write_text(f"{versions[op]}\nNG_ARG{{a}}\nNG_ARG{{b|comment}}\n")
                        else:
                            oth.write_text(str(versions[op]))
                    elif op == "enter":
                        cm = users[e["u"] - 1].instantiator.instantiate(**(dict(a=val, b=1) if e["ok"] else dict(a=val)))
                        insts.append((cm, cm.__enter__()))
                    elif op == "leave":
                        cm, path = insts[e["u"] - 1]
                        insts[e["u"] - 1] = None
                        if rng.random() < 0.5:
                            cm.__exit__(None, None, None)
                        else:
                            with contextlib.suppress(ZeroDivisionError):
                                cm.__exit__(ZeroDivisionError, ZeroDivisionError("stop"), None)
                    else:
                        func = users[e["u"] - 1]
                        script = "cd project && head -n1 main.py && cat data/other.txt && echo && sed -n 2p main.py"
                        script += dict(fail="; exit 3", words="; echo hello").get(op, "")
                        if op == "silent":
                            script = "true"
                        func.command = ["sh", "-c", script]
                        res = func(**dict(call=dict(a=val, b=2), extra=dict(a=val, b=2, c=3), missing=dict(b=2)).get(op, dict(a=val, b=2)))
                        assert isinstance(res, float)
                        full = func.last_full_output.split()
                        assert int(full[-1]) == res
                        out = [int(x) for x in full]
                except (AssertionError, FailedJobError, ValueError, RuntimeError, KeyError) as exc:
                    if isinstance(exc, AssertionError) and op in ["call", "load"]:
                        raise
                    err = True
                seen = []
                for x in insts:
                    if x is not None:
                        seen.append([int((x[1] / "main.py").read_text().split("\n")[0]), int((x[1] / "data" / "other.txt").read_text())])
                temp = len(list((root / "tmp").iterdir())) + len(list(copies.iterdir()))
                ev.append(dict(e, k="life", err=err, out=out, val=val, temp=temp, seen=seen,
                               orig=[int(tpl.read_text().split("\n")[0]), int(oth.read_text())]))
            for x in insts:
                if x is not None:
                    x[0].__exit__(None, None, None)
            users.clear()
        finally:
            os.environ.pop("CLEAN_COPY_DIRECTORY", None)
    return dict(cfg=dict(x=0), ev=ev, info=dict(job=job))


def commands(job: tp.Any) -> tp.Any:
    rng = random.Random(f"cmd{job}")
    ev = []
    with scratch() as root:
        for i in range(4):
            log = root / f"args{i}"
            args: tp.List[tp.Any] = [rng.choice(["a", 12, 1.5, "two words", "$HOME", "*", ""]) for _ in range(rng.randint(0, 3))]
            kwargs = {k: rng.choice([1, "x y", 2.5]) for k in rng.sample(["blublu", "y", "truc_2"], rng.randint(0, 2))}
            number = rng.choice([1, -3, 12, 150])
            lines = [rng.choice(["hello", "x = 3", "12", "été"]) for _ in range(rng.choice([0, 2, 5, 2000]))] + [str(number)]
            if rng.random() < 0.2:
                lines = []
            code = rng.choice([0, 0, 0, 1, 3, 127, -9, -15])  # negative: killed by a signal
            stderr = rng.choice(["", "some message", "x" * 100000 if code else "long" * 30000])
            (root / "out").write_text("".join(x + "\n" for x in lines))
            (root / "err").write_text(stderr)
            script = f'for a in "$@"; do printf "%s\\n" "$a" >> {log}; done; cat out; cat err >&2; ' + (f"exit {code}" if code >= 0 else f"kill {code} $$")
            log.write_text("")
            func = CommandFunction(["sh", "-c", script, "name"], cwd=rng.choice([root, str(root)]), env=dict(os.environ, A="1") if rng.random() < 0.3 else None)
            err, out, message = False, "", ""
            try:
                out = func(*args, **kwargs)
            except FailedJobError as exc:
                err, message = True, str(exc)
            ev.append(dict(k="cmd", args=[str(a) for a in args], kwargs=[f"--{k}={v}" for k, v in kwargs.items()], got=log.read_text().split("\n")[:-1],
                           lines=lines, code=code, err=err, out=out.split("\n") if out else [], message=len(message), stderr=len(stderr),
                           number=number, last=int(instantiate.get_last_line_as_float(out + "\n")) if out else 0))
    return dict(cfg=dict(x=0), ev=ev, info=dict(job=job))


def run_C24(chk: Check) -> None:
    consts = dict(Depth=chk.scale(5, 6), Mode="life", EMIT=False)
    chk.model("FoldersMC", split_cfg("Spec", consts, invs=["InvPast", "InvTemporary", "InvText"], props=["PropCopies", "PropInstances"]), name="life of a folder")
    hists = chk.behaviours("FoldersMC", split_cfg("Spec", dict(consts, Depth=5, EMIT=True)), name="histories")
    rng = random.Random(chk.seed)
    if len(hists) > chk.scale(2500, 25000):
        hists = rng.sample(hists, chk.scale(2500, 25000))
    found = collect(chk, pmap(life, [(h, i) for i, h in enumerate(hists)], timeout=100, chunksize=16), "life of a folder")
    chk.behaviours_replayed += len(found)
    chk.judge("FoldersT", found, "life of a folder")
    alive = next(t for t in found if t["ev"][-1]["seen"])
    found = collect(chk, pmap(texts, [chk.seed * 100000 + i for i in range(chk.scale(3000, 30000))], timeout=60, chunksize=32), "texts")
    chk.judge("FoldersT", found, "instantiated texts")
    text = next(t for t in found if t["ev"][0]["accepted"])
    found = collect(chk, pmap(commands, [chk.seed * 100000 + i for i in range(chk.scale(300, 4000))], timeout=20, chunksize=4), "commands")
    chk.judge("FoldersT", found, "commands")

    def leak(t: tp.Any) -> None:
        t["ev"][-1]["temp"] += 1

    def unread(t: tp.Any) -> None:
        t["ev"][0]["names"] = t["ev"][0]["names"][1:]

    chk.selftest("FoldersT", alive, leak, "temporary folder left")
    chk.selftest("FoldersT", text, unread, "placeholder missed")
