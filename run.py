#!/opt/veriftools/pyvenv/bin/python3
"""run.py <property> [quick|thorough] [-v] [-j substring]: decide one property on /repo's current tree."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    pid = a[0]
    tier = a[1] if len(a) > 1 else "quick"
    only = None
    for x in sys.argv[1:]:
        if x.startswith("-j="):
            only = x[3:]
    import checks
    import runner
    spec = checks.CHECKS[pid]
    return runner.run_check(pid, spec, tier, int(os.environ.get("VERIF_SEED", "1")), "-v" in sys.argv, only)


if __name__ == "__main__":
    sys.exit(main())
