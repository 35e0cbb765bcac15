import importlib, os, sys, traceback
from .core import Facts, AnalysisError
from .report import Report


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module("ka.rules." + pid)
        r = Report(pid)
        F = Facts()
        mod.run(F, r, tier)
        rc = r.finish(F, tier, seed)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        sys.exit(3)
    sys.exit(rc)


if __name__ == "__main__":
    main()
