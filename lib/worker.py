"""Runs cases of one driver module in this process; progress and results go to an NDJSON file."""
import importlib, json, os, sys, traceback
import faulthandler


def main():
    drv = importlib.import_module(sys.argv[1])
    cases = drv.gen(os.environ["NMT_TIER"], int(os.environ["NMT_SEED"]))
    if sys.argv[2] == "--count":
        print(len(cases))
        return
    f = open(sys.argv[2], "a")

    def log(x):
        f.write(json.dumps(x) + "\n")
        f.flush()
    import rec
    rec.PEND = log
    for i in map(int, sys.argv[3].split(",")):
        log({"start": i})
        c = dict(cases[i])
        try:
            out = drv.run(c)
        except Exception as e:
            if isinstance(e, rec.Escaped):
                call, what = e.call, e.what
            else:
                # an exception coming out of the code under test is part of the observation; one of the driver's own is not
                fr = [x.filename for x in traceback.extract_tb(e.__traceback__)]
                if not any(x.startswith(os.environ["NMT_BUILD"]) for x in fr):
                    raise
                call, what = "call", "%s: %s" % (type(e).__name__, str(e)[:200])
            out = {"ev": [{"op": "Unexpected", "call": call, "err": what}]}
        out.setdefault("tag", c.get("tag", "?"))
        out.setdefault("kind", c.get("kind", ""))
        log({"idx": i, "case": out})
    f.close()


if __name__ == "__main__":
    faulthandler.enable()
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        os._exit(77)
