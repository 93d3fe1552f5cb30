#!/opt/venv/bin/python
"""usage: check.py <property id> [--thorough]"""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lvsa.ctx import main  # noqa: E402
sys.exit(main(sys.argv[1:]))
