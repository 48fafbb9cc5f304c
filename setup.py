#!/usr/bin/env python3
"""Builds the MIR driver and the dependencies of the corpus (everything is rebuilt as needed by the checks)."""
import sys
from spec import build, witness
with build.Lock():
    p, s, _ = build.dump()
    witness.libs()
print('ready', p, '%.1fs' % s)
