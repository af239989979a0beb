#!/usr/bin/env python3-vt
"""run.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))

if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = sys.argv[2]
    import props
    import fallback
    import traceback
    try:
        rc = fallback.decide(sys.argv[1], props.PROPS[sys.argv[1]])
    except Exception:
        traceback.print_exc()
        rc = 2                  # no verdict
    sys.exit(rc)
