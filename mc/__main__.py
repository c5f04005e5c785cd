import importlib
import os
import sys
import traceback

from .report import Report


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module("mc.checks." + prop.lower())
    from . import env
    Report.ENVIRONMENT = dict(environment_selftest_values=env.self_test())
    if "--replay" in sys.argv:
        path = sys.argv[sys.argv.index("--replay") + 1]
        import json
        v = json.load(open(path))
        return mod.replay(v["replay"])
    try:
        return mod.main(tier)
    except Exception as e:
        # the code under test failed where no check expects it to: that is a violation; anything else is a broken check
        text = traceback.format_exc()
        sys.stderr.write(text)
        if "/mealpy/" not in text:
            return 2
        rep = Report(prop, tier, "exploration")
        rep.violation("mealpy", "unexpected-" + type(e).__name__, (), "uncaught: %r (%s)" % (e, text.strip().splitlines()[-3:]), dict(uncaught=text[-3000:]))
        rep.add(evaluations=1, distinct_nontrivial=0)
        return rep.finish()


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
