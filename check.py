"""python3-vt check.py PID [--tier quick|thorough]: the check of one property (see DESIGN.md)."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    p = argparse.ArgumentParser()
    p.add_argument("pid")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = p.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from vlib.report import Report
    rep = Report(a.pid, a.tier, seed)
    try:
        from vlib import env  # noqa
    except Exception:
        # The library can't even be imported
        rep.violation("import", "treeno.builder.convert can't be imported:\n" + traceback.format_exc())
        return rep.finish("other", "import of the library failed")
    mod = importlib.import_module("oracles." + a.pid.lower())
    if not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "proofs", a.pid.lower() + ".py")):
        mod.bounded(rep, a.tier, seed)
        return rep.finish("exploration", "")
    from pydv import run
    refuted = run.prove(rep, a.pid, a.tier)
    mod.bounded(rep, a.tier, seed)
    run.report(rep, refuted)
    return rep.finish("proof", "obligations: postconditions, frame conditions and lemmas of the functions under contract, on every path of the source as "
                      "read from /repo in this run; bounded: the same contracts evaluated on the running code")


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
