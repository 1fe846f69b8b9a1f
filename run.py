#!/usr/bin/env python3
"""python3 run.py <property> <quick|thorough>: decides one property against /repo's working tree.
Exit 0: held on everything explored; 1: violated (a VIOLATION line says where the replay is); 2: no verdict."""

import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import tools  # noqa: E402
from lib.checks import lookup  # noqa: E402


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    rep = tools.Report(prop, tier, "model_checking")
    try:
        lookup(prop)(rep, tier == "thorough")
    except tools.ToolError as e:
        print(f"no verdict for {prop}: {e}", file=sys.stderr)
        return 2
    except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        # what the code answers does not even have the shape its answers have
        traceback.print_exc()
        rep.diverge("an answer that cannot be compared", {"error": repr(e), "where": traceback.format_exc()[-1500:]})
    except Exception:
        traceback.print_exc()
        return 2
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
