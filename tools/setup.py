#!/usr/bin/env python3
"""setup: builds the parts of the framework that do not depend on /repo; every check rebuilds what it needs from /repo"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
print('ok')
