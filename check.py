#!/usr/bin/env python3
"""check.py ID            decide property ID (VERIF_TIER, VERIF_SEED)
check.py --replay FILE    run the case of a violation again and judge it"""
import json, sys, traceback
sys.dont_write_bytecode = True
from vlib import core, props


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        ctx = core.Ctx(r['property'])
        try:
            cs = [{k: v for k, v in c.items() if k not in ('obs', 'id', 'suite')} for c in r.get('before', []) + [r['case']]]
            out = ctx.run(r['suite'], cs, jobs=1)[-1:]
            out = [dict(c, id=1) for c in out]
            print('observed:', json.dumps(out[0]['obs'] if out else None, indent=1))
            if r.get('module'):
                bad = ctx.judge(r['module'], out)
                print('specification:', json.dumps([m for _, m in bad], indent=1))
                return 1 if bad else 0
            print('expected:', json.dumps(r['mismatch'], indent=1))
            return 0
        finally:
            ctx.close()
    pid = sys.argv[1]
    ctx = core.Ctx(pid)
    try:
        props.CHECKS[pid](ctx)
        return ctx.finish(props.ASSUME.get(pid, ()))
    except core.CheckError as e:
        if ctx.violations:      # violations confirmed before the trouble stand
            return ctx.finish()
        print('CHECK ERROR', e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 1 if ctx.violations else 2
    finally:
        ctx.close()


sys.exit(main())
