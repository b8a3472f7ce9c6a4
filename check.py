#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current working tree."""
import os, sys, shutil, importlib, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
import checks


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    r = vlib.Run(prop, tier, seed)
    try:
        checks.CHECKS[prop](r)
        return r.finish()
    except vlib.CheckError as e:
        print('CHECK ERROR (%s): %s' % (prop, e))
        return 2
    finally:
        shutil.rmtree(r.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
