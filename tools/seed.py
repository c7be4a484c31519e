"""Confirms one planted bug and files it under seeded/.

usage: seed.py DIR   (DIR holds spec.json {id, property, needs, what_it_breaks, file, old, new} and demo.py)
A scratch copy of /repo gets the change; the stable tests must pass and demo.py
must exit 0 without and non-zero with it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO, PY = "/repo", "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd, timeout=300):
    env = dict(os.environ, MPLBACKEND="Agg")
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def main(d):
    spec = json.load(open(os.path.join(d, "spec.json")))
    edits = spec.get("edits") or [dict(file=spec["file"], old=spec["old"], new=spec["new"])]
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        work = os.path.join(tmp, "w")
        subprocess.check_call(["cp", "-a", REPO, work])
        root = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"]).decode().split()[0]
        for e in edits:
            p = os.path.join(work, e["file"])
            s = open(p).read()
            if s.count(e["old"]) != 1:
                return "old text occurs %d times in %s" % (s.count(e["old"]), e["file"])
            open(p, "w").write(s.replace(e["old"], e["new"]))
        diff = subprocess.check_output(["git", "-C", work, "diff", "-U3"]).decode()
        # removed lines must come from the original repository
        own = []
        for e in edits:
            bl = subprocess.check_output(["git", "-C", work, "diff", "-U0", e["file"]]).decode().split("\n")
            for l in bl:
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    n = int(a[1]) if len(a) > 1 else 1
                    if n:
                        b = subprocess.check_output(["git", "-C", REPO, "blame", "-l", "-L", "%s,+%d" % (a[0], n),
                                                     "HEAD", "--", e["file"]]).decode().split("\n")
                        own += [not (x.split()[0].lstrip("^")[:39] == root[:39]) for x in b if x]
        if not own or any(own):
            return "changes lines that are not original: %s" % own
        demo = os.path.join(d, "demo.py")
        sh = '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=.\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
        open(os.path.join(tmp, "demo.sh"), "w").write(sh)
        shutil.copy(demo, tmp)
        r0, o0 = run(["bash", os.path.join(tmp, "demo.sh")], REPO)
        r1, o1 = run(["bash", os.path.join(tmp, "demo.sh")], work)
        if r0 != 0 or r1 == 0:
            return "demo: clean rc=%d, patched rc=%d\n%s\n---\n%s" % (r0, r1, o0[-600:], o1[-600:])
        xml = os.path.join(tmp, "j.xml")
        run([PY, "-B", "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider", "--timeout=300",
             "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + xml], work, 600)
        import xml.etree.ElementTree as ET
        passed = set(t.get("classname") + "::" + t.get("name") for t in ET.parse(xml).iter("testcase") if len(t) == 0)
        miss = [n for n in json.load(open("/opt/vp/BASELINE.json"))["stable"] if n not in passed]
        if miss:
            return "tests fail: %s" % miss[:5]
        out = os.path.join(HERE, "seeded", spec["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        shutil.copy(demo, out)
        open(os.path.join(out, "demo.sh"), "w").write(sh)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["what_it_breaks"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


err = main(sys.argv[1])
print(os.path.basename(sys.argv[1].rstrip("/")), err or "ok")
sys.exit(1 if err else 0)
