#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import threading
threading.stack_size(512 * 1024 * 1024)
from engine.harness import main
if __name__ == '__main__':
    prop = sys.argv[1]; tier = 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    r = {}
    def go(): r['x'] = main(prop, prop.lower(), tier)
    go()
    sys.stdout.flush()
    os._exit(r.get('x', 2))
