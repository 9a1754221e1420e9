#!/usr/bin/python3
"""check.py <PROPERTY-ID>: decides one property from the current source of /repo (see DESIGN.md)."""
import os
import sys
import threading

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def run(out):
    from pa import harness
    out.append(harness.main(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")),
                            os.environ.get("PA_ROOT", "/repo")))


if __name__ == "__main__":
    sys.setrecursionlimit(120000)
    threading.stack_size(1024 * 1024 * 1024)
    res = []
    t = threading.Thread(target=run, args=(res,))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 3)
