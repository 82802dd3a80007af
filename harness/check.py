"""check.py <property>: run the check of one property.  See DESIGN.md."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from base import Ctx, MachineryError  # noqa: E402

MODULES = ["props_parse", "props_val", "props_nav", "props_visit", "props_spell", "props_session", "props_valsess", "props_thread", "props_gram", "props_cst"]


def main():
    prop = sys.argv[1]
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            os.environ["VERIF_TIER"] = a
            import base
            base.TIER = a
    f = None
    for m in MODULES:
        f = f or importlib.import_module(m).ALL.get(prop)
    if f is None:
        print("no check for", prop)
        return 2
    ctx = Ctx(prop)
    try:
        f(ctx)
    except MachineryError as ex:
        print(f"ERROR {prop}: {ex}", file=sys.stderr)
        return 3
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
