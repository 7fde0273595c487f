"""A simulating process: executes plans given on standard input, one JSON per line."""
import json
import os
import sys
import time
import traceback


def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 2**20


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    from dst import common, engine, gen, inject, sut
    from dst.oracle import Oracle

    variant = os.environ.get("DST_VARIANT")
    if variant:
        from dst import repro

        repro.perturb(json.loads(variant))
    common.setup_jax()
    inject.init()
    oracle = Oracle(os.environ.get("DST_ORACLE"))
    pools = {}

    def send(d):
        out.write(json.dumps(d) + "\n")
        out.flush()

    send({"ready": True})
    for line in sys.stdin:
        req = json.loads(line)
        t0 = time.perf_counter()
        try:
            if "plan" in req:
                plan = req["plan"]
            else:
                pk = req.get("pool", 1)
                if pk not in pools:
                    pools[pk] = gen.Pool(pk)
                plan = gen.make(req["prop"], req["seed"], pools[pk], req.get("tier", "quick"))
            if req.get("only_plan"):
                send({"plan": plan})
                continue
            o0 = oracle.computed
            res = engine.Run(plan, oracle).execute()
            res["wall"] = time.perf_counter() - t0
            res["oracle_computed"] = oracle.computed - o0
            res["rss"] = rss_mb()
            res["seed"] = plan.get("seed")
            if res["violations"] or req.get("want_plan"):
                res["plan"] = plan
        except sut.NeedsNewProcess as e:
            res = {"restart": str(e)}
        except BaseException as e:
            res = {"harness": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-3000:],
                   "seed": req.get("seed")}
        send(res)
    oracle.close()


if __name__ == "__main__":
    main()
