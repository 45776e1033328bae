import sys
from mc.core import main

if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
