#!/usr/bin/env python3
"""usage: check.py <PROPERTY> [quick|thorough] | check.py --setup"""
import importlib, os, sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, os.path.join(HERE, "checks"))


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        import facts

        facts.extract()
        print("setup done")
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import rules

    m = importlib.import_module(pid)
    return rules.run_check(pid, tier, m.run)


sys.exit(main())
