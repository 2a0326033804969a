#!/usr/bin/env python3
"""Entry point: check.py <property> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim.core import main  # noqa: E402

sys.exit(main())
