#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from ctx import Ctx
import registry


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else (os.environ.get('VERIF_TIER') or 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    fn, level = registry.CHECKS[prop]
    ctx = Ctx(prop, tier)
    try:
        fn(ctx)
    except vlib.Violation as v:
        print(v.what)
        print('VIOLATION property=%s replay=%s' % (prop, v.replay))
        vlib.finish(prop, tier, level, ctx.coverage(), ctx.t0, violations=[v.what])
        return 1
    except vlib.CheckError as e:
        print('check error: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    for line in vlib.known_findings(prop):
        print('KNOWN-FINDING: ' + line)
    vlib.finish(prop, tier, level, ctx.coverage(), ctx.t0, ctx.assumptions)
    print('%s held: %s' % (prop, {k: v for k, v in ctx.coverage().items() if k != 'samples'}))
    return 0


if __name__ == '__main__':
    sys.exit(main())
