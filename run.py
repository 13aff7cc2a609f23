#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough]   |   run.py replay <FILE>"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim.core import main  # noqa

sys.exit(main(sys.argv[1:]))
