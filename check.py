#!/usr/bin/env python3
"""python3 check.py <property id> — decide one property from /repo's source."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from gwstat import report  # noqa: E402


def main():
    rc = 0
    for pid in sys.argv[1:]:
        m = importlib.import_module("checks." + pid.lower())
        rc = max(rc, report.run(pid, m.check, m.TITLE, getattr(m, "ASSUMPTIONS", ())))
    return rc


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    box = []
    t = threading.Thread(target=lambda: box.append(main()))
    t.start()
    t.join()
    sys.exit(box[0] if box else 2)
