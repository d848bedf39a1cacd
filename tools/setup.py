#!/usr/bin/env python3
"""Builds the monitors once, so that the checks find a warm build cache."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call([sys.executable, V + '/check.py', '--build-only']))
