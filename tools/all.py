#!/usr/bin/env python3
"""Development tool: run all (or the named) properties in one process, sharing the analyses."""
import os, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(200000)
threading.stack_size(900 * 1024 * 1024)


def main():
    from sa import check, props, build
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(props.PROPS)
    try:
        k = check.K("X", "quick")
    except build.BuildError as e:
        print("BUILDERROR", str(e)[-1500:])
        return
    for i in ids:
        t = time.time()
        k.obs, k.pid = [], i
        k.group(i, props.PROPS[i], k)
        bad = [o for o in k.obs if not o[1]]
        if bad:
            print("FAIL %s %d/%d: %s" % (i, len(bad), len(k.obs), "; ".join(o[0] for o in bad[:6])))
            if "-v" in sys.argv:
                for o in bad[:4]:
                    print("     ", o[0], o[3], o[2][:700])
        elif len(k.obs) < props.FLOORS.get(i, 1):
            print("FAIL %s floor %d" % (i, len(k.obs)))
        elif "-q" not in sys.argv:
            print("ok   %s %d (%.1fs)" % (i, len(k.obs), time.time() - t))
    print("END", flush=True)


t = threading.Thread(target=main)
t.start()
t.join()
