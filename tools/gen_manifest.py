"""Write /verif/MANIFEST.json from the registered checks."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from sfa import report, rules  # noqa: E402,F401

NA = {
    "C27": "the code takes no locks and documents no thread safety; schedules over an unsynchronised object graph cannot be bounded by a static argument here, and any sound analysis would reject every method",
    "C28": "depends on the ordering and durability of operating-system writes at crash points; nothing in the source (a single write_text call) decides it",
    "C29": "exact text selection and counting are arithmetic over unbounded runtime strings and option values; no static argument short of proving the string functions reaches them",
    "C30": "the tokenizer delegates quoting to shlex, whose character-level state machine over unbounded input is not decidable by the dataflow used here",
}
TECH = "path-sensitive interprocedural dataflow (abstract interpretation of the syntax trees; must-facts, access-path heap, no solver, no execution)"
NOTE = "every path class of every listed entry point, for arbitrary trees, policies, paths and arguments; bounds on recursion depth and created ancestor chains are in the evidence"
TECHS = {}
NOTES = {}


def main():
    ids = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
    checks, na = [], []
    for i in ids:
        if i in report.CHECKS:
            info = report.INFO[i]
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                               technique=info.get("technique") or TECH, level="other", level_note=info.get("note") or NOTE))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no static rule for it has been built yet")))
    d = dict(version=1, setup_cmd="python3 -c 'import ast, sys; sys.exit(0 if sys.version_info >= (3, 10) else 1)'", checks=checks, not_applicable=na)
    (V / "MANIFEST.json").write_text(json.dumps(d, indent=1) + "\n")


main()
