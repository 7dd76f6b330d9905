"""Makes seeded/<id>/ from a text replacement against /repo (in a scratch copy): mk(id, property, [(file, old, new)], demo, needs, breaks)."""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\n. /opt/vp/env.sh\nexec python "$(dirname "$0")/demo.py"\n'


def mk(i, prop, edits, demo, needs, breaks):
    d = os.path.join(ROOT, "seeded", i)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    repo = w + "/repo"
    try:
        subprocess.check_call("cp -a /repo %s; cd %s; git checkout -q -- ." % (repo, repo), shell=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p, newline="").read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", repo, "diff"])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    base = {}
    for f, old, new in edits:
        b = subprocess.run(["git", "-C", "/repo", "show", "02de93e:" + f], stdout=subprocess.PIPE, universal_newlines=True).stdout
        base[f] = b
    gone = [l[1:].strip() for l in diff.decode().splitlines() if l.startswith("-") and not l.startswith("---")]
    orig = {x.strip() for b in base.values() for x in b.splitlines()}
    if not any(g in orig for g in gone if g):
        print(i, "WARNING: removes no original line")
