#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decides one property (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import mbv


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(a[a.index("--seed") + 1] if "--seed" in a else os.environ.get("VERIF_SEED", "1"))
    ck = mbv.Check(pid, tier, seed)
    try:
        importlib.import_module(pid).run(ck)
        return ck.finish()
    except mbv.CheckError as e:
        if ck.violations:
            return ck.finish()
        print("CHECK ERROR:", e, file=sys.stderr)
        return 2
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
