#!/opt/venv/bin/python
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from dsim.check import main  # noqa
if __name__ == '__main__':
    code = 3
    try:
        code = main()
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.stderr.flush()
    finally:
        os._exit(code if isinstance(code, int) else 3)
