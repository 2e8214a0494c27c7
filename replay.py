#!/usr/bin/env python3
"""replay.py FILE : run a recorded counterexample on the code compiled natively from /repo"""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools', 'driver'))
import driver
r = json.load(open(sys.argv[1]))
d = tempfile.mkdtemp()
try:
    if r['unit'].endswith('.sml'):
        u = driver.Unit(r['unit']); b = u.native(d)
        print(driver.replay(b, r['entry'], r['values'], r['tier'], d))
    else:
        import cunit
        u = cunit.CUnit(r['unit'], driver); exe = u.native(d)
        print(u.replay(exe, r['entry'], r['values'], r['tier'], d))
finally: shutil.rmtree(d, ignore_errors=True)
