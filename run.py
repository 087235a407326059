#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]: decides one property of /repo's current working tree.
exit 0: held on everything explored; exit 1 + 'VIOLATION property=ID replay=...': violated; exit 2: the machinery failed."""
import argparse, importlib, json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
from concurrent.futures import ThreadPoolExecutor
from vlib import Broken, HERE

KNOWN = HERE + "/known_findings.txt"


def known():
    """lines 'finding: property=ID case=<tag> clause=<clause> # text'"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding:"):
                body, _, txt = l[8:].partition("#")
                d = dict(x.split("=", 1) for x in body.split())
                res.append((d["property"], d["case"], d["clause"], txt.strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true", help="keep the scratch directory")
    ap.add_argument("--replay", help="judge this recorded trace instead of a fresh one")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import checks
    ck = checks.CHECKS[a.id]
    work = tempfile.mkdtemp(prefix="nmtv-")
    rc = 2
    try:
        rc = run(a, ck, seed, work, t0)
    except Broken as e:
        print("BROKEN: %s" % e)
    except Exception:
        traceback.print_exc()
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.stdout.flush()
    sys.exit(rc)


def run(a, ck, seed, work, t0):
    tier, pid = a.tier, a.id
    jc = work + "/jc"
    vlib.javac(jc)
    cov = dict(models=[], samples=[])
    states = trans = 0
    # 1. the design: TLC explores the specification exhaustively within the configured constants
    behs = []
    def explore(m):
        cfg = m.get(tier) or m["quick"]
        return m, cfg, vlib.tlc(jc, m["module"], cfg, timeout=m.get("timeout", 700), args=m.get("args", ()), workers=m.get("workers", vlib.NCPU),
                                accel=m.get("accel", True), env={"NMT_TIER": tier, "NMT_SEED": str(seed)})
    with ThreadPoolExecutor(3) as ex:
        explored = list(ex.map(explore, ck.get("models", ())))
    for m, cfg, r in explored:
        if r["rc"] != 0:
            raise Broken("design model %s (%s) rc=%d\n%s" % (m["module"], cfg, r["rc"], r["out"][-3000:]))
        states += r["distinct"]
        trans += r["generated"]
        b = vlib.tlc_lines(r["out"], "@@BEH|")
        behs += [json.loads(x) for x in sorted(set(b))]
        cov["models"].append(dict(module=m["module"], cfg=cfg, distinct_states=r["distinct"], states_generated=r["generated"],
                                  behaviours_emitted=len(b), wall_s=round(r["wall"], 1)))
    print("[%5.1fs] models: %d states, %d behaviours" % (time.time() - t0, states, len(behs)))
    # 2. executions of the real code
    n_cases = 0
    bad, err = [], []
    nev = 0
    for drv, module in ck["traces"]:
        if a.replay:
            tf = a.replay
            cases = json.load(open(tf))
            n = len(cases)
        else:
            bd = work + "/build"
            if not os.path.exists(bd):
                vlib.build(bd)
                print("[%5.1fs] built /repo" % (time.time() - t0))
            wk = work + "/" + drv
            os.makedirs(wk)
            bf = wk + "/beh.json"
            json.dump(behs, open(bf, "w"))
            n, got, crashed = vlib.run_cases(bd, drv, tier, seed, wk, beh=bf, threads=ck.get("threads", 2), nworkers=ck.get("workers", 4),
                                             timeout=ck.get("timeout", {"quick": 300, "thorough": 600}[tier]))
            for i, (r, last, e) in crashed.items():
                got[i] = dict(tag="case%d" % i, kind="", ev=[dict(op="Crash", call=str(last), err="rc %s %s" % (r, e[-150:].replace("\n", " ")))])
            if len(got) != n:
                raise Broken("driver %s returned %d of %d cases" % (drv, len(got), n))
            cases = [got[i] for i in range(n)]
            tf = wk + "/trace.json"
            json.dump(cases, open(tf, "w"))
        print("[%5.1fs] %s: %d cases, %d events, %.1f MB" % (time.time() - t0, drv, n, sum(len(x["ev"]) for x in cases), os.path.getsize(tf) / 1e6))
        # 3. every recorded execution is judged by the specification
        r = vlib.tlc(jc, module, "Conf_%s.cfg" % module if os.path.exists(HERE + "/spec/Conf_%s.cfg" % module) else module + ".cfg",
                     env={"NMT_TRACE": tf, "NMT_TIER": tier}, heap="12g", timeout=max(30, 870 - (time.time() - t0)))
        want = sum(len(x["ev"]) + 1 for x in cases)
        b = vlib.tlc_lines(r["out"], "@@BAD|")
        print("[%5.1fs] %s: %d of %d trace states, %d failing clauses" % (time.time() - t0, module, r["distinct"], want, len(b)))
        if r["rc"] != 0 or r["distinct"] != want:
            if "OutOfMemory" in r["out"] or r["rc"] in (124, 137, -9) or "Error:" not in r["out"]:
                raise Broken("%s rc=%d\n%s" % (module, r["rc"], r["out"][-3000:]))
            # the recorded execution is not even of the shape the specification can evaluate
            i = r["out"].index("Error:")
            open(work + "/tlc.out", "w").write(r["out"])
            err.append((module, r["out"][i:i + 1500]))
        states += r["distinct"]
        trans += r["generated"]
        n_cases += n
        nev += want - n
        for x in b:
            p = x.split("|", 3)
            cc = cases[int(p[0]) - 1]
            ev = cc["ev"][int(p[1]) - 1]
            bad.append(dict(drv=drv, case=int(p[0]) - 1, tag=cc["tag"], event=int(p[1]) - 1, op=ev["op"], clause=p[2], why=p[3][:600], module=module))
        kinds = {}
        for x in cases:
            k = x.get("kind") or x["tag"].split(":")[0]
            kinds[k] = kinds.get(k, 0) + 1
        cov.setdefault("trace_modules", []).append(dict(module=module, driver=drv, cases=n, events=want - n, wall_s=round(r["wall"], 1), kinds=kinds))
        for x in cases[:: max(1, n // 2)][:2]:
            s = json.dumps(x)
            cov["samples"].append(dict(tag=x["tag"], ops=[e["op"] for e in x["ev"]][:20], excerpt=s[:400]))
        if bad and not a.replay:
            os.makedirs(HERE + "/evidence/replay", exist_ok=True)
            rp = HERE + "/evidence/replay/%s.json" % pid
            shutil.copy(tf, rp)
    kn = known()
    fresh, seen = [], {}
    for x in bad:
        k = [y for y in kn if y[0] == pid and y[1] == x["tag"] and y[2] == x["clause"]]
        if k:
            seen[k[0]] = x
        else:
            fresh.append(x)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    nviol = len(fresh) + len(err)
    cov.update(states=states, transitions=trans, traces_validated_against_impl=n_cases, events_judged=nev, known_findings=len(seen))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 1),
              assumptions=ck.get("assumptions", []) + ["finite constants and sampled inputs as listed in coverage; the accelerated arithmetic agrees with Rat.tla (spec/RatSelfTest)"],
              violations=nviol)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    if not nviol:
        print("[%5.1fs] %s holds on everything explored" % (time.time() - t0, pid))
        return 0
    for x in fresh[:12]:
        print("  case %d (%s) event %d %s: clause %s: %s" % (x["case"], x["tag"], x["event"], x["op"], x["clause"], x["why"]))
    if len(fresh) > 12:
        print("  ... %d more" % (len(fresh) - 12))
    for m, e in err:
        print("  %s rejects the recorded executions: %s" % (m, e))
    print("VIOLATION property=%s replay=%s" % (pid, "/verif/evidence/replay/%s.json" % pid))
    return 1


if __name__ == "__main__":
    main()
