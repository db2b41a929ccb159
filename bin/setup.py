#!/usr/bin/env python3
"""Builds the default library variant and the main explorer once (checks rebuild by themselves when the tree changes)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fzbuild as B
from plans import EXES
for e in EXES: print(B.build_exe("ship", e, **EXES[e]))
