"""Helper used while planting bugs: seed(id, property, [(file, old, new)], needs, breaks, demo_python)."""
import json, os, shutil, subprocess, tempfile

DEMO = '''#!/bin/bash
# run with cwd = /repo after the build
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def seed(i, prop, edits, needs, breaks, demo):
    d = (os.environ.get("SEEDS") or "/verif/seeded") + "/" + i
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % t, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", shell=True, cwd=t, check=True)
    for f, old, new in edits:
        s = open(t + "/" + f).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(t + "/" + f, "w").write(s.replace(old, new))
    p = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True, check=True).stdout
    assert p
    base = {f: set(subprocess.run(["git", "-C", "/repo", "show", "d1da614:" + f], capture_output=True, text=True).stdout.splitlines()) for f, _, _ in edits}
    gone = [l[1:] for l in p.splitlines() if l.startswith("-") and not l.startswith("---")]
    assert gone and all(any(l in b for b in base.values()) for l in gone), (i, "changes lines that are not original", [l for l in gone if not any(l in b for b in base.values())])
    open(d + "/patch.diff", "w").write(p)
    shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
