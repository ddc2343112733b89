"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)"""
import json
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
sys.path.insert(0, str(VERIF / "tools"))
from props import PROPS, NOT_APPLICABLE  # noqa: E402

SETUP = "bash setup.sh"


def main() -> None:
    lines, checks = [], []
    for p in PROPS:
        q = dict(over=p["over"], text=p["qtext"])
        lines.append(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=q, why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))))
        if p["id"] in NOT_APPLICABLE:
            continue
        checks.append(dict(
            property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
            technique=p["tech"], level="model_checking", level_note=p["note"]))
    (VERIF / "properties.jsonl").write_text("\n".join(lines) + "\n")
    man = dict(version=1, setup_cmd=SETUP, checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
               notes="TLA+ checked with TLC; no hook is needed in /repo: observations use the public API")
    (VERIF / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


main()
