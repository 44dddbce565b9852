#!/opt/veriftools/pyvenv/bin/python
"""check.py <property>            run one property's check
check.py --replay <property> <file>   run the replay of a recorded failing input"""
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.setrecursionlimit(20000)


def main(argv):
    from vf import catalog, core
    if argv[0] == '--replay':
        mod = importlib.import_module('checks.' + argv[1].lower())
        with open(argv[2]) as f:
            print(json.dumps(mod.replay(json.load(f)), indent=1, default=repr))
        return 0
    prop = argv[0]
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop.lower())
    obs = []
    if hasattr(mod, 'deductive'):
        obs = mod.deductive()
    total = core.run_units(mod.work([o for o in obs if o.status == 'refuted']), deadline=mod.DEADLINE)
    return core.finish(prop, catalog.C[prop], obs, total, t0)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
