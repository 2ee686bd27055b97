#!/usr/bin/env python3
"""Decides one property: check.py <property>. Exit 0: held, 1: violated (with
a VIOLATION line), 2: the check could not do its work.
check.py --setup prepares what does not depend on the code under test."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib  # noqa: E402


def module(prop):
    n = int(prop[1:])
    if n <= 11:
        import engine
        return engine
    if n <= 16:
        import server
        return server
    if n == 17:
        import parse
        return parse
    if n == 18:
        import config
        return config
    if n <= 20:
        import link
        return link
    if n <= 23:
        import client
        return client
    if n <= 26:
        import daemon
        return daemon
    raise vlib.CheckError("unknown property " + prop)


def main():
    try:
        if sys.argv[1] == "--setup":
            import json
            with open(os.path.join(vlib.VERIF, "MANIFEST.json")) as f:
                props = [c["property"] for c in json.load(f)["checks"]]
            for p in props:
                m = module(p)
                if hasattr(m, "warm"):
                    m.warm(p)
            return 0
        vlib.prune_build()
        return module(sys.argv[1]).check(sys.argv[1])
    except vlib.CheckError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
