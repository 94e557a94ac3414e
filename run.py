#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py P01 [--tier quick|thorough]
[--seed N] [--budget S] [--replay FILE]. Exit 0: held; 1: violated; 2: no
answer (build failure, internal error, out of time)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import runner
sys.exit(runner.main(sys.argv[1:]))
