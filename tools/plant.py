"""plant.py [--test] [--checks] ID ... : write seeded/<ID>/ from tools/plants.py
and confirm it in a scratch copy (demo passes on /repo, fails with the patch;
--test also runs the stable tests there; --checks runs the property's check)."""
import json, os, shutil, subprocess, sys, time
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plants import PLANTS
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; 1: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$T" OMP_NUM_THREADS=1 /opt/venv/bin/python "$D/demo.py"
R=$?
rm -rf "$T"
exit $R
'''
HEAD = '''import os, sys, warnings, types
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np
from inflation import InflationProblem, InflationSDP, InflationLP


def expect(cond, *msg):
    if not cond:
        print("BROKEN:", *msg)
        sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def run_tests(copy):
    """the stable tests in a copy; returns names of stable tests not passing"""
    out = os.path.join(copy, "_t")
    os.makedirs(out)
    ps = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               PYTHONPATH=copy)
    for f in sorted(os.listdir(os.path.join(copy, "test"))):
        if f.startswith("test_") and f.endswith(".py"):
            e = dict(env, NUMBA_CACHE_DIR=os.path.join(out, "nc" + f))
            ps.append(subprocess.Popen(
                ["timeout", "600", PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                 "-o", "junit_family=xunit2", f"--junitxml={out}/{f}.xml", f"test/{f}"],
                cwd=copy, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps:
        p.wait()
    ok = set()
    for f in os.listdir(out):
        if f.endswith(".xml"):
            for tc in ET.parse(os.path.join(out, f)).getroot().iter("testcase"):
                if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                    ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [s for s in stable if s not in ok]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    flags = [a for a in sys.argv[1:] if a.startswith("--")]
    ids = args or list(PLANTS)
    for i in ids:
        d = PLANTS[i]
        t0 = time.time()
        dst = os.path.join(HERE, "seeded", i)
        os.makedirs(dst, exist_ok=True)
        copy = f"/tmp/plant_{i}"
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree("/repo", copy)
        sh("git checkout -q -- . && git clean -fdq", cwd=copy)
        for f, old, new in d["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", cwd=copy).stdout
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        open(os.path.join(dst, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        head = HEAD
        if d["solver"]:
            for f in ("standin", "ipm"):
                text = open(os.path.join(HERE, "pbt", f + ".py")).read()
                open(os.path.join(dst, f + ".py"), "w").write(
                    text.replace("from . import ipm", "import ipm"))
            head = HEAD.replace("import numpy as np\n", "import numpy as np\nimport standin\nstandin.install()\n")
        open(os.path.join(dst, "demo.py"), "w").write(head + d["demo"].strip("\n") + "\n")
        json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]),
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        # lines removed must be original lines
        msg = []
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
        for line in diff.splitlines():
            if line.startswith("-") and not line.startswith("---") and line[1:].strip():
                f = [x for x in diff.splitlines() if x.startswith("--- a/")]
                src = "".join(sh(f"git -C /repo show {base}:{x[6:]}").stdout for x in f)
                if line[1:].strip() not in src:
                    msg.append("NOT ORIGINAL: " + line)
        a = sh(f"bash {dst}/demo.sh", cwd="/repo")
        b = sh(f"bash {dst}/demo.sh", cwd=copy)
        msg.append(f"demo clean={a.returncode} patched={b.returncode} "
                   f"({b.stdout.strip().splitlines()[-1:] or b.stderr.strip().splitlines()[-1:]})")
        if a.returncode != 0:
            msg.append("CLEAN FAILS: " + a.stdout[-500:] + a.stderr[-1500:])
        if "--test" in flags:
            bad = run_tests(copy)
            msg.append(f"stable tests broken: {bad}" if bad else "tests pass")
        if "--checks" in flags:
            for c in [d["property"]] + d.get("also", []):
                r = sh(f"{PY} check.py {c}", cwd=HERE, env=dict(os.environ, PBT_REPO=copy,
                                                               VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                last = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "OK", "HARNESS"))]
                msg.append(f"{c}: rc={r.returncode} {last[-1][:200] if last else r.stderr[-300:]}")
        print(f"== {i} [{time.time() - t0:.0f}s]\n   " + "\n   ".join(msg), flush=True)
        if "--keep" not in flags:
            shutil.rmtree(copy, ignore_errors=True)


main()
