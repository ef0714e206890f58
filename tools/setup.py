#!/usr/bin/env python3
"""Builds the harnesses and the TLC override, and compares the override with the TLA+ definitions."""
import concurrent.futures, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, areas


def main():
    vlib.java_build()
    td = tempfile.mkdtemp(prefix="setup.")
    try:
        def grid(ov):
            p = os.path.join(td, "o%d.json" % ov)
            r = vlib.tlc("MersenneTest", env={"OUT": p}, override=ov, workers=1, timeout=1500)
            vlib.tlc_ok(r, "MersenneTest (override %s)" % ov)
            return open(p).read()
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            both = [ex.submit(grid, ov) for ov in (True, False)]
            for h in areas.HARNESSES:
                h() if callable(h) else vlib.build(h)
            outs = [f.result() for f in both]
        if outs[0] != outs[1] or len(outs[0]) < 1000:
            print("ERROR: the Java override disagrees with Mersenne.tla")
            return 1
    finally:
        shutil.rmtree(td, ignore_errors=True)
    print("setup done")
    return 0


if __name__ == "__main__":
    sys.exit(main())
