"""python -B -m mc.run CXX [quick|thorough]"""
import importlib
import os
import sys


def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        from . import core
    except Exception:
        # the package under test cannot even be imported
        import traceback
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (
            pid, 'python3 -c "import sortedcontainers"'))
        return 1
    mod = importlib.import_module('mc.checks.' + pid.lower())
    return core.main(pid, mod.run, tier)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
