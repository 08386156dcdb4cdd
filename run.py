import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import env  # noqa: E402,F401
from vlib import runner  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    sys.exit(runner.main("checks." + prop.lower(), sys.argv[2:]))
