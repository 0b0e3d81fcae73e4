import atexit
import importlib
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
from lib import core

if __name__ == '__main__':
    sys.dont_write_bytecode = False
    owner = os.getpid()
    scratch = core.setup_paths()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(scratch, ignore_errors=True))
    os.environ.setdefault('HOME', '/tmp')
    prop = sys.argv[1]
    try:
        mod = importlib.import_module('checks.' + prop.lower())
    except Exception:
        import traceback

        traceback.print_exc()
        print('HARNESS-ERROR property=%s (cannot load)' % prop)
        sys.exit(2)
    code = core.main(mod, sys.argv[2:])
    sys.stdout.flush()
    sys.exit(code)
