"""Confirms planted bugs: plant.py [ID...] [-nt] [-v] [-all]: in a scratch copy of /repo, runs seeded/ID/demo.sh, applies
patch.diff, runs the demo again, the stable tests (not with -nt) and the check of the property (with -all: every check)."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEST = ". /opt/vp/env.sh; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -W ignore " \
       "-o python_files='test*.py' -o junit_family=xunit2 --junitxml=%s/junit.xml test < /dev/null; /usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml"


def sh(cmd, cwd, env=None, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, universal_newlines=True, env=dict(os.environ, **(env or {})))
    return r.returncode, r.stdout


def one(i):
    tests = "-nt" not in sys.argv
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = []
    w = tempfile.mkdtemp(prefix="plant")
    repo = w + "/repo"
    try:
        sh("cp -a /repo %s" % repo, "/")
        sh("git checkout -q -- .", repo)
        rc0, o = sh("bash %s/demo.sh" % d, repo)
        out.append("clean demo %d%s" % (rc0, "" if rc0 == 0 else " " + o[-300:]))
        rc, o = sh("git apply %s/patch.diff" % d, repo)
        if rc:
            return i + ": does not apply " + o
        rc1, o = sh("bash %s/demo.sh" % d, repo)
        out.append("patched demo %d" % rc1 + (" " + o.strip()[-150:] if "-v" in sys.argv else ""))
        ok = rc0 == 0 and rc1 != 0
        if tests:
            rc, o = sh(TEST % (w, w, w), repo)
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res = json.load(open(w + "/out.json"))
            bad = base - set(res["passed"])
            out.append("tests %s" % ("ok" if not bad else "BROKEN %s" % sorted(bad)[:4]))
            ok = ok and not bad
        if not ok:
            out.insert(0, "NOT VALID")
        for p in ([meta["property"]] if "-all" not in sys.argv else sorted(c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"])):
            rc, o = sh("python3 checks/%s.py" % p, ROOT, {"VERIF_REPO": repo, "VERIF_OUT": w})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=%s" % p)]
            if p == meta["property"] or rc:
                out.append("%s rc=%d %s" % (p, rc, "CAUGHT" if rc == 1 and v else "missed"))
                if "-v" in sys.argv:
                    out.append(o.strip()[:600])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i + ": " + "; ".join(out)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, ids):
            print(r, flush=True)
