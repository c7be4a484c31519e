"""python -m symtf.replay FILE: rerun a counterexample on the plain repository"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symtf.instance import concrete  # noqa: E402
from symtf.run import unjenv  # noqa: E402


def main():
    d = json.load(open(sys.argv[1]))
    o = concrete([dict(check=d["check"], fn=d["fn"], params=d["params"], env=unjenv(d["env"]), seed=1)])[0]
    if o["exc"]:
        print("fails:", o["exc"])
    for n, m in o["fails"]:
        print("fails: %s (rel. difference %.3g)" % (n, m))
    if o["exc"] or o["fails"]:
        return 1
    print("holds")
    return 0


if __name__ == "__main__":
    sys.exit(main())
