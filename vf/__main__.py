import sys
from .harness import main
try:
    rc = main(sys.argv[1:])
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 3
sys.stdout.flush()
sys.exit(rc)
