"""python -m vf.main <property> <tier>   |   python -m vf.main replay <file>"""
import importlib
import json
import os
import sys
import traceback

from . import core


def main(argv):
    sys.path.insert(0, core.REPO)
    if argv[0] == "replay":
        with open(argv[1], encoding="utf-8") as f:
            v = json.load(f)
        mod = importlib.import_module("vf.checks." + v["property"].lower())
        try:
            if v["case"] == {"uninterpretable": True}:
                print("no single case; run the check")
                return 2
            r = mod.replay(v["case"])
        finally:
            core.cleanup()
        if r is None:
            print("case holds now:", v["key"])
            return 0
        print("VIOLATION property=%s replay=%s" % (v["property"], argv[1]))
        print("  expected:", core._short(r[0]))
        print("  observed:", core._short(r[1]))
        return 1
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = core.Ctx(prop, tier, seed)
    core.scratch()
    level = "model_checking"
    try:
        # A tree that cannot even be imported offers none of its guarantees.
        imp = core.pmap(_try_import, [0], nproc=1)[0]
        if imp is not True:
            ctx.violation("import", {"import": True}, "pyclibrary imports", repr(imp), "the package does not import")
        else:
            mod = importlib.import_module("vf.checks." + prop.lower())
            level = getattr(mod, "LEVEL", level)
            try:
                mod.run(ctx)
            except core.WorkerError as e:
                if "OracleError" in str(e) or "AssertionError" in str(e) or "MemoryError" in str(e):
                    raise
                # what the code gave back cannot even be looked at the way every valid outcome can
                ctx.exhaustive = False
                ctx.violation("uninterpretable outcome", {"uninterpretable": True}, "outcomes of the expected shape",
                              str(e)[-2000:])
        rc = core.finish(ctx, level)
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        core.cleanup()
    return rc


def _try_import(_):
    r = core.guarded(lambda: importlib.import_module("pyclibrary") and True)
    if r is True:
        import pyclibrary
        assert os.path.realpath(pyclibrary.__file__).startswith(os.path.realpath(core.REPO)), pyclibrary.__file__
    return r


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
