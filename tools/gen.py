"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The tests compare a handful of fixed signals at one or two sizes; the law is about every signal value, window and grid."


def P(id, title, statement, over, text, why, files, mech, level_note, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                note=level_note, observe=observe)


PROPS = []
exec(open(os.path.join(HERE, "tools", "props.py")).read())

TECH = ("solver-based checking of the real code: symbolic execution of the current source (numpy semantics as a shim) with "
        "symbolic data, every obligation an SMT query (z3), counterexamples replayed on the unmodified package")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    checks = []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py")):
            checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"],
                               thorough_cmd="./check %s thorough" % p["id"], technique=TECH, level="other",
                               level_note="Bounded solver verdict over the real code. " + p["note"]))
    na = [dict(property=p["id"], reason=p["note"]) for p in PROPS
          if not os.path.exists(os.path.join(HERE, "harness", p["id"].lower() + ".py"))]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="All checks run from /verif with ./check <ID> <tier>; the encoding is rebuilt from /repo on every run.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
