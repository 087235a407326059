#!/usr/bin/env python3
"""tools/seed.py [--no-check] [--no-tests] ID...: try planted bugs in scratch copies of /repo: patch applies, demo passes clean
and fails patched, stable Python tests pass, and (unless --no-check) what the property's check says."""
import glob, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, "/verif/lib")
PYV = "/opt/venv/bin/python"


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    stable = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    root = tempfile.mkdtemp(prefix="seed-")
    import vlib
    clean = root + "/clean"
    vlib.build(clean)
    for i in a:
        d = (os.environ.get("SEEDS") or "/verif/seeded") + "/" + i
        w = root + "/" + i
        os.makedirs(w)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run("git -C /repo archive HEAD | tar x -C %s/ --one-top-level=repo" % w, shell=True, check=True)
        r = subprocess.run(["git", "apply", "--directory=", d + "/patch.diff"], cwd=w + "/repo", capture_output=True, text=True)
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stderr)
            continue
        vlib.REPO = w + "/repo"
        try:
            vlib.build(w + "/b")
        finally:
            vlib.REPO = "/repo"
        res = []
        for b in (clean, w + "/b"):
            x = subprocess.run(["bash", d + "/demo.sh"], cwd=b, capture_output=True, text=True, timeout=300, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
            res.append(x.returncode)
            if b == clean and x.returncode:
                print(x.stdout[-800:], x.stderr[-1500:])
        tests = "-"
        if "--no-tests" not in sys.argv:
            shutil.copy(w + "/b/_nmtlib.so", w + "/repo/_nmtlib.so")
            x = subprocess.run([PYV, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--continue-on-collection-errors", "--junitxml=%s/j.xml" % w, "pymaster"], cwd=w + "/repo",
                               env=dict(os.environ, PYTHONPATH="/opt/vp/plugins:%s/repo" % w, OMP_NUM_THREADS="4", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
            import xml.etree.ElementTree as ET
            ok = set()
            for tc in ET.parse(w + "/j.xml").iter("testcase"):
                if not [y for y in tc if y.tag in ("failure", "error", "skipped")]:
                    ok.add((tc.get("classname") or "").split(".")[-1] + "::" + tc.get("name"))
            miss = [s for s in stable if not s.startswith("ctest") and not any(s.endswith(o) or o.split("::")[1] == s.split("::")[-1] for o in ok)]
            tests = "tests ok" if not miss else "TESTS BROKEN %s" % miss[:4]
        out = "-"
        if "--no-check" not in sys.argv:
            p = json.load(open(d + "/meta.json"))["property"]
            x = subprocess.run([sys.executable, "/verif/run.py", p, "--tier", "quick"], env=dict(os.environ, NMT_REPO=w + "/repo"), capture_output=True, text=True)
            out = "%s rc=%d %s" % (p, x.returncode, "CAUGHT" if x.returncode == 1 else "MISSED\n" + x.stdout[-600:])
            if x.returncode == 1:
                out += "  [" + [l for l in x.stdout.splitlines() if "clause " in l][0].strip()[:150] + "]" if "clause " in x.stdout else ""
        print(i, "demo clean/patched %d/%d" % tuple(res), "OK" if res[0] == 0 and res[1] else "DEMO WRONG", "|", tests, "|", out, flush=True)
        shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(root, ignore_errors=True)


main()
