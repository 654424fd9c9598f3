"""Re-run the failing input(s) of a replay file on the real package: exit 1 if the contract still fails."""
import json
import sys
sys.dont_write_bytecode = True
from hvc import registry, check


def main(p):
    d = json.load(open(p))
    registry.load()
    if "runs" not in d:
        print("no failing input; failed obligations:")
        for o in d.get("failed_obligations", []):
            print(" ", o)
        return 1
    own = d["property"] in registry.ALL[d["contract"]].props
    for runs in (d["runs"], d["history"]):
        for seed, opts in runs:
            fs, c, inp = check.one_run(d["contract"], d["case"], seed, opts, d["property"], own)
        for f in fs:
            print(f)
        if fs:
            return 1
    print("does not fail")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
