#!/usr/bin/env python3
"""run.py <property> [--thorough]: decides one property on /repo's current tree.  run.py --setup: builds and fills caches."""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
if "--setup" in sys.argv:
    import lueir
    for comp in lueir.COMPONENTS:
        print(comp, len(lueir.parse(lueir.units([comp]))))
    sys.exit(0)
import check
pid = sys.argv[1]
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
check.main(pid, lambda: importlib.import_module(pid).run())
