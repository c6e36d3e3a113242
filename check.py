#!/opt/venv/bin/python
"""check.py <property id> : decide one property on /repo's current tree."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import env       # noqa: E402,F401

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module('vc.props.' + pid.lower())
    sys.exit(mod.main())
