import argparse
import os
import sys


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    p.add_argument("--replay")
    p.add_argument("--deadline", type=float)
    p.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = p.parse_args()
    from . import core

    mod = f"mc.checks.{a.prop.lower()}"
    if a.replay:
        return core.replay(mod, a.replay)
    dl = a.deadline or (420 if a.tier == "quick" else 700)
    return core.explore(mod, a.tier, dl, a.j)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
