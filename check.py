#!/usr/bin/env python3
"""Runs the check of one property: check.py <property>."""
import importlib
import os
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import common  # noqa: E402
import extract  # noqa: E402


def limit_memory():
    """A source the analysis can not cope with must not exhaust the machine."""
    cap = 12 << 30
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    if hard == resource.RLIM_INFINITY or cap < hard:
        resource.setrlimit(resource.RLIMIT_AS, (cap, hard))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = common.Report(prop, tier, seed)
    try:
        ctx = common.Ctx(extract.extract())
        mod = importlib.import_module(prop.lower())
        limit_memory()
        try:
            explanation = mod.run(ctx, rep)
        except common.CheckError:
            raise
        except Exception as e:
            # a construct the check does not know: what was decided before stands, the rest is undecided
            if not any(done for _, done in rep.rules.values()) and not rep.violations:
                raise
            traceback.print_exc()
            at = traceback.extract_tb(e.__traceback__)[-1]
            rep.unknown("analysis", "-", prop, f"{type(e).__name__} at {at.name}:{at.lineno}: {e}")
            explanation = "The analysis did not finish; the rules listed were decided before it stopped."
        return rep.finish(explanation)
    except (common.CheckError, extract.ExtractError) as e:
        print(f"{prop}: check error: {e}", file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    sys.exit(main())
