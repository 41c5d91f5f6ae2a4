#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import os, random, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
import plans


def main():
    sys.stdout.reconfigure(encoding='utf-8', errors='backslashreplace')   # lone surrogates in reports
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = vp.Ctx(pid, tier, seed)
    try:
        level, assumptions, extra = plans.PLANS[pid](ctx)
        return ctx.finish(level, assumptions, extra)
    except vp.Broken as e:
        if ctx.violations:        # already decided
            print('stopped: %s' % e, flush=True)
            return ctx.finish('model_checking')
        print('BROKEN property=%s: %s' % (pid, e), flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


sys.exit(main())
