"""python -m vp.replay FILE: run the recorded failing input again on the real code."""
import json
import sys
from . import worker


def main():
    with open(sys.argv[1]) as h:
        v = json.load(h)
    if "trial" not in v:
        print(json.dumps(v, indent=1))
        print("no concrete input recorded: rerun the check")
        return 1
    worker.setup("con")
    from vp import harness
    harness.load_contracts(v["property"])
    c = harness.REGISTRY[(v["property"], v["contract"])]
    r = harness.run_concrete(c, v["case"], v["trial"] + 1, 60, v["seed"], v.get("hints"), only=v["trial"])
    if r["violation"]:
        print("reproduced:", json.dumps(r["violation"], indent=1, default=str))
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main())
