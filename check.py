#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "cvv"))
import runner
sys.exit(runner.main(sys.argv[1]))
