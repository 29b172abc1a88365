#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property of /repo's current tree"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from vf import core, registry


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    core.engine()
    rep = core.Report(prop, tier)
    work = core.Work()
    try:
        for part in registry.PARTS[prop]:
            part(rep, work, tier)
        return rep.finish(level=registry.level(prop))
    except core.Broken as e:
        print("analysis broken: %s" % e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work.dir)
        else:
            work.close()


sys.exit(main())
