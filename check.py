#!/usr/bin/env python3
"""check.py <property>: decides one property for the working tree of the repository.

VERIF_TIER=thorough explores more, VERIF_SEED selects the random part.
Exit status: 0 held, 1 violated, 2 the check could not do its work."""
import os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
from core import Broken, Ctx, CheckError


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    import checks
    ctx = Ctx(prop)
    try:
        checks.CHECKS[prop](ctx)
        return ctx.finish()
    except Broken as e:
        ctx.violation(str(e), {'what': str(e)})
        return ctx.finish()
    except CheckError as e:
        if ctx.violations:
            # What was found before the check got stuck is a violation all the same.
            print('note: %s' % e)
            return ctx.finish()
        print('ERROR property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
