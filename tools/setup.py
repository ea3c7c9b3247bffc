#!/usr/bin/env python3
"""Builds the MIR dumper once, so that the checks need not."""
import os
import sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine')]
import run
print(run.driver())
