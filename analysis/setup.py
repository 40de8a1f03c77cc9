#!/usr/bin/env python3
"""Builds the extractor and warms the program database."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
p = ir.load()
print("extractor built; %d functions" % len(p.live()))
