#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property of /repo by symbolic
execution of the real code.  exit 0: held on everything explored; exit 1: VIOLATION."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools', 'driver'))
import driver
sys.exit(driver.main(sys.argv[1:]))
