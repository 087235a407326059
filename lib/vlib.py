"""Machinery shared by all checks: build the code under test, compile the TLC accelerators, run TLC, run drivers."""
import glob, json, os, re, shutil, subprocess, sys, sysconfig, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NMT_REPO", "/repo")
PY = os.environ.get("NMT_PY", "/opt/venv/bin/python")
TLA = "/opt/veriftools/tla"
JAR = TLA + "/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 2)


class Broken(Exception):
    """the machinery itself failed (exit 2)"""


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise Broken("%s\n%s" % (" ".join(cmd[:6]), (r.stdout + r.stderr)[-4000:]))
    return r.stdout


def build(dst):
    """Compile /repo's current working tree (C library, SWIG wrapper, Python package) into dst."""
    os.makedirs(dst + "/obj")
    os.makedirs(dst + "/inc")
    with open(dst + "/inc/config.h", "w") as f:
        f.write('#define PACKAGE_VERSION "verif"\n#define VERSION "verif"\n')
    q = "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include())"
    pyinc, npinc = sh([PY, "-c", q], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")).split()
    srcs = sorted(glob.glob(REPO + "/src/*.c")) + [REPO + "/pymaster/namaster_wrap.c"]
    mk = open(REPO + "/Makefile.am").read() if os.path.exists(REPO + "/Makefile.am") else ""
    m = re.search(r"libnmt_la_SOURCES\s*=((?:[^\n\\]|\\\n)*)", mk)
    if m:
        named = [REPO + "/" + x for x in m.group(1).replace("\\", " ").split() if x.endswith(".c")]
        if named and all(os.path.exists(x) for x in named):
            srcs = named + srcs[-1:]

    def cc(s):
        o = dst + "/obj/" + os.path.basename(s)[:-2] + ".o"
        opt = "-O0" if "namaster_wrap" in s else "-O2"
        sh(["gcc", opt, "-std=gnu99", "-fPIC", "-fopenmp", "-w", "-iquote", dst + "/inc", "-I" + dst + "/inc",
            "-I" + REPO + "/src", "-I" + REPO, "-I" + pyinc, "-I" + npinc, "-c", s, "-o", o])
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(cc, srcs))
    sh(["gcc", "-shared", "-fopenmp"] + objs + ["-o", dst + "/_nmtlib.so", "-L/usr/lib/x86_64-linux-gnu",
        "-lchealpix", "-lcfitsio", "-lgsl", "-lgslcblas", "-lfftw3", "-lfftw3_omp", "-lm", "-lgomp"])
    shutil.copytree(REPO + "/pymaster", dst + "/pymaster", ignore=shutil.ignore_patterns("__pycache__", "*.so", "tests"))
    shutil.rmtree(dst + "/obj")


def javac(dst):
    os.makedirs(dst)
    sh(["javac", "-nowarn", "-cp", JAR, "-d", dst] + sorted(glob.glob(HERE + "/java/nmtspec/*.java")))


def tlc(jc, module, cfg=None, env=None, workers=NCPU, heap="6g", timeout=840, args=(), meta=None, accel=True):
    """Run TLC on spec/<module>.tla; returns dict(out, rc, generated, distinct, ok)."""
    cp = JAR + ":" + TLA + "/CommunityModules-deps.jar"
    cmd = ["java", "-XX:+UseParallelGC", "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-Xss64m", "-Xmx" + heap]
    if accel:
        cmd += ["-Dtlc2.overrides.TLCOverrides=nmtspec.Overrides:tlc2.overrides.TLCOverrides"]
        cp = jc + ":" + cp
    cmd += ["-cp", cp, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-deadlock", "-workers", str(workers), "-metadir", meta or tempfile.mkdtemp(dir=os.path.dirname(jc)),
            "-config", (cfg or module + ".cfg")] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=HERE + "/spec", env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = ((x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")), 124
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return dict(out=out, rc=rc, generated=g, distinct=d, wall=time.time() - t, cmd=" ".join(cmd[-8:]))


def tlc_lines(out, tag):
    """strings printed by PrintT that start with tag, unescaped"""
    res = []
    for l in out.splitlines():
        if l.startswith('"' + tag):
            try:
                res.append(json.loads(l)[len(tag):])
            except ValueError:
                res.append(l[1 + len(tag):].rstrip('"'))
    return res


def run_cases(bdir, drv, tier, seed, work, beh=None, threads=2, nworkers=4, timeout=700):
    """Run driver drv over all its cases, in nworkers processes; a crash of the code under test is recorded as an event."""
    env = dict(os.environ, PYTHONPATH=bdir + ":" + HERE + "/lib:" + HERE + "/drv", OMP_NUM_THREADS=str(threads), PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", MPLBACKEND="Agg", HOME=work, NMT_TIER=tier, NMT_SEED=str(seed),
               NMT_BEH=beh or "", NMT_BUILD=bdir, NMT_NEED_DUCC="1", OPENBLAS_NUM_THREADS="1", DUCC0_NUM_THREADS=str(threads))
    n = int(sh([PY, HERE + "/lib/worker.py", drv, "--count"], env=env).split()[-1])
    t0 = time.time()

    def one(w):
        idx = list(range(w, n, nworkers))
        out = "%s/w%d.ndjson" % (work, w)
        crashes = {}
        while idx:
            scr = tempfile.mkdtemp(dir=work)
            try:
                r = subprocess.run([PY, HERE + "/lib/worker.py", drv, out, ",".join(map(str, idx))], env=dict(env, NMT_SCRATCH=scr), cwd=scr,
                                   capture_output=True, text=True, timeout=max(10, timeout - (time.time() - t0)))
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired as x:
                rc, err = 124, "timeout"
            shutil.rmtree(scr, ignore_errors=True)
            done, cur, last = set(), None, None
            if os.path.exists(out):
                for l in open(out):
                    try:
                        x = json.loads(l)
                    except ValueError:
                        continue
                    if "start" in x:
                        cur, last = x["start"], None
                    elif "pend" in x:
                        last = x["pend"]
                    else:
                        done.add(x["idx"])
            if rc == 0:
                break
            if rc == 77:
                raise Broken("driver %s: %s" % (drv, err[-3000:]))
            if cur is None or cur in done:
                raise Broken("driver %s died outside a case (rc %s): %s" % (drv, rc, err[-3000:]))
            crashes[cur] = (rc, last, err[-300:])
            idx = [i for i in idx if i not in done and i not in crashes]
        return out, crashes
    with ThreadPoolExecutor(nworkers) as ex:
        res = list(ex.map(one, range(nworkers)))
    cases, crashed = {}, {}
    for out, cr in res:
        crashed.update(cr)
        if os.path.exists(out):
            for l in open(out):
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                if "idx" in x:
                    cases[x["idx"]] = x["case"]
    return n, cases, crashed
