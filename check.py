#!/usr/bin/env python3
"""check.py <property id>: decide one property (see DESIGN.md)."""
import os, sys, traceback
import vlib, props

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = vlib.Run(prop, tier, seed)
    try:
        props.CHECKS[prop](run)
        run.write_evidence(0)
        print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            prop, run.states, run.transitions, run.traces, run.events, __import__("time").time() - run.t0))
        return 0
    except vlib.Violation:
        return 1
    except vlib.CheckError as e:
        print("ERROR property=%s: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()

sys.exit(main())
