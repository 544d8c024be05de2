#!/usr/bin/env python3
"""run.py check <property>: decide one property on /repo's working tree. See DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import importlib
import vlib

MODULES = ["chains", "crash", "conc", "registry", "loader", "dial", "detector", "shutdown", "api", "network", "startup"]


def registry():
    return {p: m.CHECKS[p] for p, m in registry_modules().items()}


def registry_modules():
    r = {}
    for name in MODULES:
        m = importlib.import_module(name)
        r.update({p: m for p in m.CHECKS})
    return r


def setup():
    """Warm the Go build cache; the checks rebuild from the working tree anyway."""
    c = vlib.Check("setup")
    try:
        c.driver()
        return 0
    finally:
        c.cleanup()


if __name__ == "__main__":
    if sys.argv[1:] == ["setup"]:
        sys.exit(setup())
    if len(sys.argv) != 3 or sys.argv[1] != "check" or sys.argv[2] not in registry():
        print("usage: run.py check <property>; properties:", " ".join(sorted(registry())))
        sys.exit(2)
    sys.exit(vlib.main_wrapper(sys.argv[2], registry()[sys.argv[2]]))
