#!/usr/bin/env python3
"""Builds what the checks share; checks rebuild from /repo by themselves, so this is only a warm-up and a tool check."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
print("classes:", check.build_java())
