#!/usr/bin/env python3
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(40000)
threading.stack_size(512 * 1024 * 1024)


def run():
    from sa import check
    try:
        rc[0] = check.main(sys.argv)
    except Exception:
        import traceback
        traceback.print_exc()
        rc[0] = 2


rc = [2]
t = threading.Thread(target=run)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
