#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property by static analysis of the repository source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    from sfa import report, rules
    from sfa.harness import AnchorError
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    ids = sorted(report.CHECKS) if args == ["all"] else args
    rc = 0
    for pid in ids:
        try:
            r = report.decide(pid, tier)
        except AnchorError as e:
            print(f"error: anchor lost: {e}", file=sys.stderr)
            r = 2
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
