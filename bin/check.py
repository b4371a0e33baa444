#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, dbchecks, libchecks, clichecks
MODULES = [dbchecks, libchecks, clichecks]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    for m in MODULES:
        if hasattr(m, prop):
            try:
                return getattr(m, prop)(tier)
            except common.CheckError as e:
                common.cleanup()
                print('check error: %s' % e)
                return 2
            except Exception:
                common.cleanup()
                traceback.print_exc()
                return 2
    print('no such property: ' + prop)
    return 2

sys.exit(main())
