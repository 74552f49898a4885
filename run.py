#!/usr/bin/env python3
"""run.py <property>: builds what the check of that property needs from /repo's working tree, runs it, judges it.

Exit 0: held on everything explored. Exit 1 plus a VIOLATION line: broken. Exit 2: the check could not decide."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import checks
sys.exit(checks.main(sys.argv[1:]))
