#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree.  Exit 0 / 1 (violation) / 2 (error of the check)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from vp import Ctx, ToolError


def main():
    if sys.argv[1:] == ["--setup"]:
        c = Ctx("setup", "quick")
        hd = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
        for crate in sorted(os.listdir(hd)):
            if os.path.exists(os.path.join(hd, crate, "Cargo.toml")):
                print(c.build(crate))
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = {"C": "parser_checks", "K": "cron_checks", "U": "uri_checks", "H": "hocon_checks", "T": "toys_checks"}[prop[0]]
    ctx = Ctx(prop, "thorough" if tier == "thorough" else "quick")
    __import__(mod).run(ctx)
    return ctx.finish()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("check error: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
