#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current sources."""
import importlib.util, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
import harness


def main():
    pid = sys.argv[1]
    path = os.path.join(HERE, "checks", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid.lower(), path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return harness.main(pid, m.run, m.TITLE)


sys.exit(main())
