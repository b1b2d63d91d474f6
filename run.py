import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness.core import main  # noqa: E402
import harness.core            # noqa: E402,F401

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))
