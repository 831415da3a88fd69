#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   exit 0 held, 1 violated, 2 no answer"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pv import core, proj
from pv.checks import CHECKS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx, c = None, CHECKS[prop]
    try:
        ctx = core.Ctx(prop, tier, seed)
        c['run'](ctx)
        code = core.finish(ctx, c['level'], c['assumes'])
    except Exception:
        traceback.print_exc()
        print('check of %s could not be completed' % prop)
        code = 2
        if ctx is not None and ctx.viols:
            # what was found before still stands
            code = core.finish(ctx, c['level'], c['assumes'])
    finally:
        proj.cleanup()
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
