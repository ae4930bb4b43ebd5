#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   decide one property on the current tree of /repo"""
import faulthandler
import os
import signal
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":      # runs are reproducible from VERIF_SEED
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
faulthandler.dump_traceback_later(500, exit=False)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
os.environ["TZ"] = os.environ.get("TZ", "UTC")


def main():
    import core
    core.limit_memory(12)
    if not core.thorough():
        core.watchdog(780)
    try:
        return decide(core)
    finally:
        core.cleanup()


def decide(core):
    try:
        import checks
        return checks.run(sys.argv[1])
    except core.Enough:
        core.Check.current.violation(["hang"], {"what": "calls that do not end", "count": core.Hang.seen})
    except core.MachineryError as err:
        print("MACHINERY:", err)
    except Exception:
        traceback.print_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    # the machinery failed, but the violations found by then stand
    chk = core.Check.current
    return core.finish(chk, "model_checking") or 2 if chk and chk.viol else 2


if __name__ == "__main__":
    sys.exit(main())
