#!/usr/bin/env python3
"""Run one check: check.py PROPERTY [--tier quick|thorough] [--root /repo]."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selfcheck", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    from sa.report import run

    if a.selfcheck:
        from sa.program import Program

        print("parsed %d modules" % len(Program(a.root).modules))
        return 0

    return run(a.prop, a.tier, a.root)


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code or 2)
        except BaseException:
            import traceback

            traceback.print_exc()
            rc.append(3)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
