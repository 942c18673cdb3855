"""replay.py <replay.json>: run one harness on concrete inputs against the
unpatched code.  Exit 0: property holds on this input; 3: it is violated;
4: input outside the harness' assumptions; 5: replayer error."""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def blame_repo(e):
    """Was the exception raised by the code under test (and not by the harness
    touching something that is not there)?"""
    from bbv import shim
    if getattr(e, "from_code", False):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for fr in reversed(tb):
        f = os.path.realpath(fr.filename)
        if f.startswith(os.path.realpath(shim.CODE)):
            return True
        if f.startswith(here):
            return False
    return False


def _str(e):
    try:
        return str(e)
    except Exception:
        return "?"


def main(argv):
    with open(argv[0]) as f:
        rec = json.load(f)
    from bbv import concrete, shim
    shim.setup_path()
    mod = importlib.import_module("props." + rec["property"].lower())
    func = getattr(mod, rec["harness"])
    ctx = concrete.ConcreteCtx(rec["inputs"])
    try:
        func(ctx, **rec["params"])
    except concrete.Violated as e:
        print("REPRODUCED: %s" % e)
        return 3
    except concrete.NotApplicable as e:
        print("input outside assumptions: %s" % e)
        return 4
    except Exception as e:
        try:
            traceback.print_exc()
        except Exception:
            print("(exception without a printable form)")
        if not blame_repo(e):
            print("harness error: %s: %s" % (type(e).__name__, _str(e)))
            return 5
        print("REPRODUCED: the code raised %s: %s" % (type(e).__name__, _str(e)))
        return 3
    print("property holds on this input")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
