"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree (nothing of it is run)."""
import os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Ctx, Report, finish
import dump as dumper

GROUP = {}
for m, ps in (("p_grammar", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C23"), ("p_tables", "C11 C12"), ("p_types", "C13 C14 C15 C16 C17 C18 C19 C24"), ("p_crate", "C20 C21 C22")):
    for p in ps.split():
        GROUP[p] = m


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    ctx = Ctx(tier)
    rep = Report(prop)
    mod = __import__(GROUP[prop])
    try:
        getattr(mod, prop)(ctx, rep)
    except dumper.DumpError as e:
        rep.undecided("the crate type-checks", e)
        print(str(e)[-3000:])
    except Exception as e:
        # the analysis itself gave up: no verdict, never an alarm
        rep.undecided("the analysis of %s" % prop, "internal error: %r" % (e,))
        traceback.print_exc(limit=-6)
    return finish(rep, ctx, mod.LEVEL.get(prop, "other"))


if __name__ == "__main__":
    sys.exit(main())
