#!/usr/bin/env python3
"""run.py PROPERTY: decides one property on /repo's current tree (see DESIGN.md)."""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]
import common


def main():
    prop = sys.argv[1]
    import broker
    table = {p: broker.check for p in broker.PLAN}
    for mod, props in (("reactor", ("C17", "C20")), ("router", ("C18",)), ("notifier", ("C19",)),
                       ("config", ("C21",)), ("e2e", ("C23",)), ("iso", ("C26",))):
        for p in props:
            table[p] = lambda q, mod=mod: __import__(mod + "_check").check(q)
    table[prop](prop)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
