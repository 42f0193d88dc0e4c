#!/usr/bin/env python3
"""Builds the MIR dumper and warms the dump of /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from prv.program import Program
p = Program()
print('bodies:', len(p.bodies), 'functions:', len(p.fns))
from prv.checks import c22w
c22w.witness()
