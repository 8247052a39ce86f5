#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] | run.py setup

Decides a property of the code in /repo's working tree.  See DESIGN.md."""
import os
import signal
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib
import checks


def main():
    what = sys.argv[1]
    if what == 'setup':
        return checks.setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    ctx = vlib.Context(what, tier, seed)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    try:
        checks.CHECKS[what](ctx)
        return vlib.finish(ctx, 'model_checking')
    except vlib.CheckError as e:
        # What was found before still counts.
        if ctx.violations:
            return vlib.finish(ctx, 'model_checking')
        print('ERROR property=%s %s' % (what, e))
        return 2
    finally:
        vlib.cleanup()


sys.exit(main())
