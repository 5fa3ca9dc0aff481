#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: exit 0 held, 1 VIOLATION, 2 the check itself failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

TABLE = {
    "checks_index": ["P09", "P10", "P11", "P12"],
    "checks_stream": ["P13", "P14"],
    "checks_prod": ["P28"],
    "checks_text": ["P29", "P30", "P31"],
    "checks_shower": ["P32"],
    "checks_gf": ["P15", "P16", "P17", "P18", "P27"],
    "checks_dense": ["P20", "P21", "P22", "P23", "P24", "P25", "P26"],
    "checks_dist": ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P19"],
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = [m for m, ps in TABLE.items() if pid in ps]
    if not mod:
        print("unknown property", pid)
        return 2
    c = vlib.Check(pid, tier)
    try:
        ok = getattr(importlib.import_module(mod[0]), pid.lower())(c)
    except vlib.CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e), flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s internal error" % pid, flush=True)
        return 2
    c.evidence()
    c.log("states %d, transitions %d, traces %d: %s" % (c.cov["states"], c.cov["transitions"], c.cov["traces_validated_against_impl"],
                                                        "held" if ok else "VIOLATED"))
    return 0 if ok else 1


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc) if rc == 2 else sys.exit(rc)
