"""replays one counterexample file on the unmodified code:
   /opt/venv/bin/python -B /verif/replay.py <evidence/replay/X.json>"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get('NSYM_REPO', '/repo'))
sys.path.insert(0, HERE)
sys.set_int_max_str_digits(0)
from nsym import ctx


def main():
    r = json.load(open(sys.argv[1]))
    t = ctx.NatCtx(r['inputs'])
    f = getattr(importlib.import_module(r['module']), r['func'])
    print('property', r['property'], 'case', r['func'], r['params'])
    print('inputs', json.dumps(r['inputs'])[:2000])
    try:
        f(t, **r['params'])
    except ctx.CheckFailed as e:
        print('VIOLATED:', e.msg)
        return 1
    except ctx.AssumeFailed:
        print('inputs lie outside the case')
        return 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('VIOLATED: unexpected exception', repr(e))
        return 1
    print('holds on these inputs')
    return 0


sys.exit(main())
