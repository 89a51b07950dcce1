#!/usr/bin/python3
"""check.py <property> [--thorough]: decides a property on the current source of the repository."""
import importlib
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main(argv):
    prop = argv[0]
    if '--thorough' in argv:
        os.environ['VERIF_TIER'] = 'thorough'
    from tsa.check import Check
    chk = Check(prop)
    mod = importlib.import_module('checks.' + prop.lower())
    from tsa.interp import AnalysisError
    try:
        mod.run(chk)
    except AnalysisError as e:
        chk.undecided('run', 'the rest of the check', 'analysis: {}'.format(e))
        print('  interrupted: {}'.format(e))
    return chk.finish()


if __name__ == '__main__':
    rc = []

    def target():
        try:
            rc.append(main(sys.argv[1:]))
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=target)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
