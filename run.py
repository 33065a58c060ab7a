#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N]      run one property's check
   run.py replay <file>                                      re-run a recorded violation"""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
from core import Ctx


def main(argv):
    if argv and argv[0] == 'replay':
        import replay
        return replay.main(argv[1])
    prop = argv[0]
    tier = seed = None
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--seed' in argv:
        seed = int(argv[argv.index('--seed') + 1])
    ctx = Ctx(prop, tier, seed)
    import registry
    fn = registry.find(prop)
    try:
        fn(ctx)
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            # the machinery failed: no answer, never a silent pass
            ctx.finish()
            return 2
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
