#!/usr/bin/env python3
"""Decide one property of the package: python3 check.py ID [--tier quick|thorough]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mdsa.check import main  # noqa

sys.exit(main(sys.argv[1:]))
