#!/usr/bin/env python3
"""check.py PROPERTY          decide a property (VERIF_TIER, VERIF_SEED)
check.py replay FILE       run a reported counterexample again
check.py setup             build everything once"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import core
import checks


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == 'setup':
        w = core.Work()
        try:
            core.build(w)
            core.build(w, race=True)
            core.build(w, fast=True)
            core.tlc(w, 'XmlGen', env={'THEME': 'prolog', 'BIG': 0, 'TOKS': 0})
        finally:
            w.close()
        print('ok')
        return 0
    if sys.argv[1] == 'replay':
        w = core.Work()
        try:
            return checks.replay(w, sys.argv[2])
        finally:
            w.close()
    prop = sys.argv[1]
    t0 = time.time()
    w = core.Work()
    try:
        run = checks.Run(prop, w)
        checks.CHECKS[prop](run)
        return run.finish(time.time() - t0)
    except core.ToolError as e:
        print('TOOL ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        w.close()


sys.exit(main())
