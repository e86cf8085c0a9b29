"""Plants the bugs described in a python file of specs (kept outside /verif while developing):
   /opt/venv/bin/python tools/plant.py SPECS.py [id ...]
Each spec: id, property, edits [(file, old, new)], needs, breaks, demo (python text).
The change is made in a scratch copy under /tmp, where the stable tests, the demo and the property's check run."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env=None, t=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def stable(copy, env):
    out = os.path.join(copy, "junit_seed.xml")
    work = tempfile.mkdtemp(dir=copy)
    run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--timeout=300", "--continue-on-collection-errors",
         "-p", "no:cov", "--randomly-seed=0", "--randomly-dont-reorganize", "--nbmake", "--nbmake-timeout=240",
         "-o", "junit_family=xunit2", "--junitxml=" + out, "src/legwork/tests", "docs/demos"], copy,
        dict(env, IPYTHONDIR=work + "/i", JUPYTER_RUNTIME_DIR=work + "/j", OMP_NUM_THREADS="1", PIP_NO_INDEX="1",
             PATH="/opt/venv/bin:" + os.environ["PATH"]))
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if not list(c.findall("failure")) + list(c.findall("error")) + list(c.findall("skipped")):
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [s for s in base if s not in ok and s.split("::")[-1] not in {o.split("::")[-1] for o in ok}]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    skip_tests = "--no-tests" in sys.argv
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    for s in ns["SPECS"]:
        if want and s["id"] not in want:
            continue
        copy = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
        shutil.rmtree(copy)
        shutil.copytree("/repo", copy, symlinks=True)
        env = {"PYTHONPATH": copy + "/src"}
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(copy, f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            diff = run(["git", "diff"], copy)[1]
            d = os.path.join(HERE, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            ok0, o0 = run(["bash", d + "/demo.sh"], "/repo")
            ok1, o1 = run(["bash", d + "/demo.sh"], copy, env)
            bad = [] if skip_tests else stable(copy, env)
            rc, out = run(["./check.sh", s["property"], "quick"], HERE, {"LEGWORK_REPO": copy})
            v = [ln for ln in out.splitlines() if ln.startswith("VIOLATION")]
            print("%-28s demo clean=%d patched=%d  tests broken=%d  check rc=%d %s" % (
                s["id"], ok0, ok1, len(bad), rc, v[:1] or out.strip().splitlines()[-1:]), flush=True)
            if ok0 or not ok1:
                print("   ", o0[-300:], o1[-300:])
            if bad:
                print("    broken:", bad)
        finally:
            shutil.rmtree(copy)


main()
