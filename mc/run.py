import logging
import sys

from mc import core

if __name__ == '__main__':
    logging.disable(logging.CRITICAL)
    pid = sys.argv[1]
    sys.exit(core.main('checks.' + pid.lower(), sys.argv[2:]))
