#!/usr/bin/env python3
"""run.py setup | run.py <property> [--thorough]"""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/lib', V]
sys.dont_write_bytecode = True
if len(sys.argv) > 1 and sys.argv[1] == 'setup':
    import driver, program
    driver.extract()
    program.load()
    print('ready')
    sys.exit(0)
import report
sys.exit(report.main(sys.argv[1], sys.argv[2:]))
