#!/usr/bin/env python3
"""check.py <property id>: exit 0 held / 1 violated / 2 the machinery failed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
import vlib
def main():
    pid = sys.argv[1]
    import registry
    ctx = vlib.Ctx(pid)
    try:
        sys.exit(registry.CHECKS[pid](ctx))
    except vlib.CheckError as e:
        if ctx.violations:   # something was violated before the machinery stumbled
            sys.exit(ctx.finish())
        print('ERROR property=%s %s' % (pid, e)); sys.exit(2)
main()
