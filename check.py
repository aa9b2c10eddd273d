#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--replay FILE]: decide one property."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from gsim import engine  # noqa: E402

if __name__ == "__main__":
    engine.main()
