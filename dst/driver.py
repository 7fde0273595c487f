"""Runs a batch of simulated runs for one property, reports, minimises, replays."""
import argparse
import collections
import hashlib
import json
import os
import queue
import re
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import gen, repro

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
NWORK = int(os.environ.get("DST_WORKERS", "8"))
RUN_LIMIT = 240.0


class Died(Exception):
    pass


class Hung(Exception):
    pass


class Worker:
    n = 0

    def __init__(self, scratch, variant=None, cache=None, home=None):
        Worker.n += 1
        self.scratch = scratch
        self.dir = os.path.join(scratch, "w%d" % Worker.n, (variant or {}).get("dir", "cwd"))
        os.makedirs(self.dir)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("JAX_", "XLA_"))}
        env.update(PYTHONPATH=ROOT, DST_ORACLE=os.path.join(scratch, "oracle"), PYTHONDONTWRITEBYTECODE="1",
                   PYTHONWARNINGS="ignore", DST_CACHE=cache or os.path.join(scratch, "cache"), JAX_PLATFORMS="cpu",
                   HOME=self.dir)
        if variant is not None:
            env.update(repro.environment(variant))
            env["DST_VARIANT"] = json.dumps(variant)
            if variant.get("home") and home:
                os.makedirs(os.path.join(home, "tmp"), exist_ok=True)
                env["HOME"] = home
                env["TMPDIR"] = os.path.join(home, "tmp")
        else:
            env["PYTHONHASHSEED"] = os.environ.get("DST_HASHSEED", "0")
        self.err = open(os.path.join(scratch, "err%d" % Worker.n), "w")
        self.env = env
        self.start()

    def start(self):
        self.p = subprocess.Popen([PY, "-m", "dst.worker"], cwd=self.dir, env=self.env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err)
        self.buf = b""
        self.history = []
        self.rss = 0
        self._read(300)

    def _read(self, limit):
        end = time.monotonic() + limit
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise Hung()
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                raise Hung()
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                raise Died(self.tail())
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def tail(self):
        try:
            self.err.flush()
            with open(self.err.name) as f:
                return f.read()[-1500:]
        except OSError:
            return ""

    def run(self, req, limit=RUN_LIMIT):
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            raise Died(self.tail())
        res = self._read(limit)
        if "restart" in res:  # a process can load this package once
            self.p.stdin.close()
            self.p.wait()
            self.start()
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
            res = self._read(limit)
        self.history.append(req)
        self.rss = res.get("rss", self.rss)
        return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(3)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.err.close()
        shutil.rmtree(os.path.dirname(self.dir), ignore_errors=True)

    def kill(self):
        self.p.kill()
        self.p.wait()
        self.err.close()


# ---------------------------------------------------------------- replaying


def execute_fresh(scratch, rep, tries=1, limit=RUN_LIMIT):
    """Run a replay (earlier plans, then the plan) in new processes; the first violating
    result, or the last one."""
    res = None
    for _ in range(tries):
        if rep.get("variants"):
            res = compare_variants(scratch, rep["plan"], rep["variants"], rep.get("chain", []))
        else:
            w = Worker(scratch)
            try:
                for pl in rep.get("chain", []):
                    w.run({"plan": pl}, limit)
                res = w.run({"plan": rep["plan"], "want_plan": True}, limit)
                w.close()
            except Hung:
                w.kill()
                res = {"violations": [{"class": "hang", "step": None, "detail": "no answer within %ds" % limit}]}
            except Died as e:
                w.kill()
                res = {"violations": [{"class": "process-died", "step": None, "detail": str(e)[-300:]}]}
        if res.get("violations"):
            return res
    return res


def compare_variants(scratch, plan, variants, chain=()):
    outs = []
    home = os.path.join(scratch, "home%d" % Worker.n)
    ws = [Worker(scratch, v, cache=os.path.join(scratch, "cv%d-%d" % (Worker.n, i)), home=home) for i, v in enumerate(variants)]
    try:
        outs = [None] * len(ws)

        def go(i):
            try:
                for pl in chain:
                    ws[i].run({"plan": pl})
                outs[i] = ws[i].run({"plan": plan})
            except (Died, Hung) as e:
                outs[i] = {"harness": repr(e)}

        run_all(go, variants)
    finally:
        for w in ws:
            w.close()
        shutil.rmtree(home, ignore_errors=True)
    return difference(outs)


def run_all(go, variants):
    """at once, but those that share a home one after the other"""
    sh = [i for i, v in enumerate(variants) if v.get("home")]

    def chain():
        for i in sh:
            go(i)

    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(variants)) if i not in sh]
    if sh:
        ths.append(threading.Thread(target=chain))
    [t.start() for t in ths]
    [t.join() for t in ths]


def difference(outs):
    for o in outs:
        if o is None or "harness" in o:
            return o or {"harness": "no result"}
    res = dict(outs[0])
    res["violations"] = []
    for j, o in enumerate(outs[1:], 1):
        if o["log"] != outs[0]["log"]:
            k = next((i for i, (a, b) in enumerate(zip(outs[0]["log"], o["log"])) if a != b), min(len(o["log"]), len(outs[0]["log"])))
            a = outs[0]["log"][k] if k < len(outs[0]["log"]) else None
            b = o["log"][k] if k < len(o["log"]) else None
            res["violations"] = [{"class": "irreproducible", "step": (a or b)[0],
                                  "detail": "process 0 got %s, process %d got %s" % (a, j, b)}]
            return res
    return res


# ---------------------------------------------------------------- minimising


def classes(res):
    return [v["class"] for v in (res or {}).get("violations", [])]


def size(plan):
    return len(json.dumps(plan["steps"]))


def shrink_list(items, test, deadline):
    """ddmin"""
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        chunk = max(1, len(items) // n)
        done = False
        for i in range(0, len(items), chunk):
            if time.monotonic() > deadline:
                return items
            cand = items[:i] + items[i + chunk:]
            if test(cand):
                items = cand
                n = max(2, n - 1)
                done = True
                break
        if not done:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
    return items


class Minimiser:
    def __init__(self, scratch, rep, cls, deadline, result):
        self.scratch, self.rep, self.cls, self.deadline = scratch, rep, cls, deadline
        self.best = rep["plan"]
        self.tries = 0
        self.w = None
        self.last = result

    def reproduces(self, plan):
        if time.monotonic() > self.deadline:
            return False
        self.tries += 1
        rep = dict(self.rep, plan=plan)
        if rep.get("variants") or rep.get("chain") or self.cls in ("hang", "process-died"):
            res = execute_fresh(self.scratch, rep, limit=60)
        else:
            try:
                if self.w is None:
                    self.w = Worker(self.scratch)
                res = self.w.run({"plan": plan}, 90)
            except (Hung, Died):
                self.w.kill()
                self.w = None
                return False
        ok = self.cls in classes(res)
        if ok:
            self.best = plan
            self.last = res
        return ok

    def steps(self):
        vs = [v for v in self.last["violations"] if v["class"] == self.cls]
        st = vs[0].get("step")
        if isinstance(st, int) and st >= 0 and st + 1 < len(self.best["steps"]):
            self.reproduces(dict(self.best, steps=self.best["steps"][: st + 1]))
        shrink_list(list(self.best["steps"]), lambda s: self.reproduces(dict(self.best, steps=s)), self.deadline)

    def inside(self):
        for i in range(len(self.best["steps"])):
            s = self.best["steps"][i]

            def put(new, i=i):
                st = list(self.best["steps"])
                st[i] = new
                return dict(self.best, steps=st)

            for key in ("ctx", "how", "terms", "params", "body", "qs"):
                if isinstance(s.get(key), list) and len(s[key]) > (0 if key == "ctx" else 1):
                    shrink_list(list(s[key]), lambda l, key=key, i=i: (key == "ctx" or l) and self.reproduces(
                        put(dict(self.best["steps"][i], **{key: l}))), self.deadline)
            if "then" in s:
                self.reproduces(put({k: v for k, v in self.best["steps"][i].items() if k != "then"}))
            if s["op"] == "threads":
                self.threads(i, put)
            if s["op"] == "nested":
                shrink_list(list(s["points"]), lambda l: l and self.reproduces(put(dict(self.best["steps"][i], points=l))), self.deadline)
                for t in range(len(self.best["steps"][i]["points"])):
                    cur = self.best["steps"][i]
                    shrink_list(list(cur["points"][t]["ops"]), lambda l: self.reproduces(put(dict(
                        self.best["steps"][i], points=[dict(x, ops=l) if j == t else x for j, x in enumerate(self.best["steps"][i]["points"])]))),
                        self.deadline)
            s = self.best["steps"][i]
            if s.get("conv", "jnp") != "jnp":
                self.reproduces(put(dict(s, conv="jnp")))

    def threads(self, i, put):
        sched = (self.last.get("schedule") or {})
        s = self.best["steps"][i]
        if sched.get("step") == i and s["sched"]["kind"] != "list":
            ls = {"kind": "list", "seed": 0, "gran": s["sched"].get("gran", "line"),
                  "switches": sched["switches"], "handoffs": sched["handoffs"]}
            self.reproduces(put(dict(s, sched=ls)))
        for t in range(len(s["threads"])):
            cur = self.best["steps"][i]
            shrink_list(list(cur["threads"][t]), lambda l: self.reproduces(put(dict(
                self.best["steps"][i], threads=[l if j == t else x for j, x in enumerate(self.best["steps"][i]["threads"])]))),
                self.deadline)
        cur = self.best["steps"][i]
        if cur["sched"]["kind"] == "list":
            shrink_list(list(cur["sched"]["switches"]), lambda l: self.reproduces(put(dict(
                self.best["steps"][i], sched=dict(self.best["steps"][i]["sched"], switches=l)))), self.deadline)

    def chain(self):
        c = self.rep.get("chain")
        if c:
            def test(l):
                self.rep["chain"], old = l, self.rep["chain"]
                if self.reproduces(self.best):
                    return True
                self.rep["chain"] = old
                return False
            shrink_list(list(c), test, self.deadline)

    def run(self):
        try:
            self.chain()
            self.steps()
            self.inside()
        finally:
            if self.w:
                self.w.close()
        return self.best


# ---------------------------------------------------------------- the batch


class Batch:
    def __init__(self, prop, tier, seed, wall, maxruns):
        self.prop, self.tier, self.seed, self.wall, self.maxruns = prop, tier, seed, wall, maxruns
        self.scratch = tempfile.mkdtemp(prefix="dst-%s-" % prop)
        os.makedirs(os.path.join(self.scratch, "oracle"))
        self.lock = threading.Lock()
        self.stats = collections.Counter()
        self.sites, self.states = set(), set()
        self.runs = 0
        self.nontrivial = set()
        self.found = []
        self.harness = []
        self.unreproduced = []
        self.known_hits = collections.Counter()
        self.samples = []
        self.stop = threading.Event()
        self.t0 = time.monotonic()
        self.next = 0
        self.known = load_known(prop)

    def take(self):
        with self.lock:
            if self.next >= self.maxruns or self.stop.is_set() or time.monotonic() - self.t0 > self.wall:
                return None
            i = self.next
            self.next += 1
            return self.seed * 1000003 + i

    def req(self, s):
        return {"prop": self.prop, "seed": s, "tier": self.tier, "pool": self.seed}

    def absorb(self, s, res, history):
        with self.lock:
            if "harness" in res:
                self.harness.append({"seed": s, "what": res["harness"], "tb": res.get("tb", "")[-1500:]})
                if len(self.harness) > 5:
                    self.stop.set()
                return
            self.runs += 1
            self.stats.update(res["stats"])
            self.sites.update(res["sites"])
            self.states.update(res["states"])
            if res["stats"].get("answers-checked", 0) + res["stats"].get("derivatives-checked", 0) + res["stats"].get(
                    "memory-blocks", 0) + res["stats"].get("results-compared", 0) > 0:
                self.nontrivial.add(hashlib.sha1(json.dumps(res["log"]).encode()).hexdigest())
            if len(self.samples) < 6 and res["log"]:
                self.samples.append({"seed": s, "steps": len(res["log"]), "log": [compact(l) for l in res["log"][:6]]})
            vs = []
            for v in res["violations"]:
                k = match_known(self.known, v)
                if k:
                    self.known_hits[k] += 1
                else:
                    vs.append(v)
            if vs:
                self.found.append({"seed": s, "violations": vs, "plan": res.get("plan"), "history": history, "res": res})
                self.stop.set()

    def loop(self):
        w = None
        while True:
            s = self.take()
            if s is None:
                break
            try:
                if w is None:
                    w = Worker(self.scratch)
                hist = list(w.history)
                res = w.run(self.req(s))
                self.absorb(s, res, hist)
                if len(w.history) >= 60 or w.rss > 1900 or "harness" in res:
                    w.close()
                    w = None
            except (Hung, Died) as e:
                cls = "hang" if isinstance(e, Hung) else "process-died"
                tail = "" if isinstance(e, Hung) else str(e)
                if w is not None:
                    w.kill()
                w = None
                with self.lock:
                    self.found.append({"seed": s, "violations": [{"class": cls, "step": None, "detail": tail[-300:]}],
                                       "plan": None, "history": [], "res": {}})
                    self.stop.set()
        if w is not None:
            w.close()

    def loop_variants(self, g):
        """C13: the same plans in processes whose surroundings differ"""
        k = 0
        while True:
            s = self.take()
            if s is None:
                break
            vs = repro.variants(self.seed * 7919 + g * 131 + k, 3)
            caches = [os.path.join(self.scratch, "cv%d-%d" % (g, i)) for i in range(3)]
            k += 1
            ws = []
            try:
                home = os.path.join(self.scratch, "home%d-%d" % (g, k))
                ws = [Worker(self.scratch, v, cache=c, home=home) for v, c in zip(vs, caches)]
                hist = []
                for _ in range(16):
                    outs = [None] * 3

                    def go(i):
                        try:
                            outs[i] = ws[i].run(self.req(s))
                        except (Died, Hung) as e:
                            outs[i] = {"harness": repr(e)}

                    run_all(go, vs)
                    res = difference(outs)
                    if "stats" in res:
                        res["stats"] = dict(res["stats"])
                        res["stats"]["results-compared"] = len(res["log"])
                        res["stats"]["processes-compared"] = 3
                    if res.get("violations"):
                        res["variants"] = vs
                    self.absorb(s, res, list(hist))
                    hist.append(self.req(s))
                    if "harness" in res:
                        break
                    s = self.take()
                    if s is None:
                        break
            except (Hung, Died) as e:
                with self.lock:
                    self.harness.append({"seed": s, "what": repr(e), "tb": ""})
            finally:
                for w in ws:
                    w.close()
            if s is None:
                break

    def search(self):
        if self.prop == "C13":
            ts = [threading.Thread(target=self.loop_variants, args=(g,)) for g in range(max(1, NWORK // 3 + 1))]
        else:
            ts = [threading.Thread(target=self.loop) for _ in range(NWORK)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        self.search_wall = time.monotonic() - self.t0

    # ---- a violation was seen: confirm, minimise, write the replay
    def plan_for(self, req):
        if "plan" in req:
            return req["plan"]
        pool = gen.Pool(req["pool"])
        return gen.make(req["prop"], req["seed"], pool, req["tier"])

    def settle(self, f, budget):
        deadline = time.monotonic() + budget
        plan = f["plan"] or self.plan_for(self.req(f["seed"]))
        plan = json.loads(json.dumps(plan))
        want = [v["class"] for v in f["violations"]]
        rep = {"property": self.prop, "plan": plan, "chain": [], "attempts": 1}
        if f["res"].get("variants"):
            rep["variants"] = f["res"]["variants"]
        res = execute_fresh(self.scratch, rep)
        hit = [c for c in classes(res) if c in want]
        if not hit and f["history"]:
            rep["chain"] = [json.loads(json.dumps(self.plan_for(h))) for h in f["history"]]
            res = execute_fresh(self.scratch, rep)
            hit = [c for c in classes(res) if c in want]
        if not hit:
            rep["chain"] = []
            rep["attempts"] = 6
            res = execute_fresh(self.scratch, rep, tries=4)
            hit = [c for c in classes(res) if c in want]
            if not hit:
                return None
        cls = hit[0]
        original = size(plan)
        m = Minimiser(self.scratch, rep, cls, deadline, res)
        rep["plan"] = m.run()
        final = execute_fresh(self.scratch, rep, tries=rep["attempts"])
        if cls not in classes(final):
            rep["plan"] = plan
            if f["history"] and not rep["chain"] and rep["attempts"] == 1:
                pass
            final = execute_fresh(self.scratch, rep, tries=max(rep["attempts"], 3))
            if cls not in classes(final):
                final = res
        v = next(v for v in final["violations"] if v["class"] == cls)
        rep.update({"class": cls, "violation": v, "seed": f["seed"], "verif_seed": self.seed, "tier": self.tier,
                    "schedule": final.get("schedule"), "minimised": {"from_chars": original, "to_chars": size(rep["plan"]),
                                                                     "candidate_runs": m.tries}})
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (self.prop, cls, f["seed"]))
        with open(path, "w") as fh:
            json.dump(rep, fh, indent=1)
        return path, v

    def evidence(self, violations):
        wall = time.monotonic() - self.t0
        faults = {k[6:]: n for k, n in self.stats.items() if k.startswith("fired:")}
        unf = sum(n for k, n in self.stats.items() if k.startswith("unfired:"))
        hours = max(self.search_wall, 1e-3) / 3600
        cov = {
            "evaluations": self.runs,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": "one plan per seed; a run counts when at least one answer, derivative, memory block or result log was "
                    "compared with its reference, and once per distinct event log",
            "samples": self.samples,
            "seeds": {"verif_seed": self.seed, "first": self.seed * 1000003, "runs": self.runs},
            "runs_per_hour": round(self.runs / hours),
            "seeds_per_hour": round(self.runs / hours),
            "simulated_time": "the library has no clocks or timers: time is the simulator's step count",
            "simulated_steps": self.stats.get("steps", 0),
            "scheduling_points": self.stats.get("scheduling-points", 0),
            "preemptions": self.stats.get("preemptions", 0),
            "faults_fired": dict(sorted(faults.items())),
            "faults_planned_but_not_reached": unf,
            "distinct_fault_sites": len(self.sites),
            "distinct_states": len(self.states),
            "state_measure": "distinct (query, contexts, last three queries on each object it mentions), and for concurrent "
                             "steps distinct (switch list, hand-off list, thread programs)",
            "counters": dict(sorted(self.stats.items())),
            "real_components": ["all of jax_cosmo from the working tree", "JAX, XLA:CPU, NumPy, SciPy", "CPython threads (one released at a time)",
                                "pickle/copy", "separate operating-system processes for crash/restart and for the reference"],
            "stubs": ["scheduler decides every thread switch (sys.monitoring line or instruction events)", "threading locks and jax.jit's "
                      "one-tracer-at-a-time wait, when created by the library, go through the scheduler",
                      "user-supplied functions (transfer, non-linear, n(z), integrands) are the simulator's",
                      "out-of-memory, device failure, timeout, interrupt: raised at chosen lines or numerical calls of the library"],
            "harness_errors": self.harness[:3],
            "unreproduced": self.unreproduced,
            "known_findings_met": dict(self.known_hits),
            "reported": violations,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "wall_s": round(wall, 2), "violations": len(violations),
              "assumptions": ["JAX, XLA, NumPy and CPython behave as their documentation says",
                              "the reference is the same working tree in a pristine process asked that one question"]}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", "%s.json" % self.prop)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)


def compact(l):
    return json.dumps(l)[:160]


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def match_known(known, v):
    for k in known:
        if k["class"] == v["class"] and re.search(k["detail"], v.get("detail", "")):
            return k["id"]
    return None


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    scratch = tempfile.mkdtemp(prefix="dst-replay-")
    os.makedirs(os.path.join(scratch, "oracle"))
    try:
        res = execute_fresh(scratch, rep, tries=rep.get("attempts", 1))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if "harness" in (res or {}):
        print("harness error: %s" % res["harness"])
        return 2
    for v in res["violations"]:
        print("  %s at step %s: %s" % (v["class"], v["step"], v["detail"]))
        if v.get("tb"):
            print("    " + v["tb"])
    if rep["class"] in classes(res):
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    print("not reproduced")
    return 0


WALL = {"quick": 95.0, "thorough": 2400.0}
SHORT = {"C14": 75.0}  # the space of imports is small


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--wall", type=float, default=None)
    ap.add_argument("--runs", type=int, default=10**9)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.tier not in WALL:
        a.tier = "quick"
    wall = a.wall or (SHORT if a.tier == "quick" else {}).get(a.prop) or WALL[a.tier]
    b = Batch(a.prop, a.tier, a.seed, wall, a.runs)
    code, reported = 0, []
    try:
        print("property %s, tier %s, VERIF_SEED %d" % (a.prop, a.tier, a.seed), flush=True)
        settle_budget = 90 if a.tier == "quick" else 400
        tries = 0
        while True:
            b.search()
            done = False
            for f in b.found[:4]:
                r = b.settle(f, settle_budget)
                if r is None:
                    b.unreproduced.append({"seed": f["seed"], "violation": f["violations"][0]})
                    continue
                path, v = r
                print("  %s at step %s: %s" % (v["class"], v["step"], v["detail"]))
                if v.get("tb"):
                    print("    " + v["tb"])
                print("VIOLATION property=%s replay=%s" % (a.prop, path), flush=True)
                reported.append({"class": v["class"], "detail": v["detail"], "seed": f["seed"], "replay": path})
                code = 1
                done = True
                break
            tries += 1
            if done or not b.found or len(b.harness) > 5 or tries >= 3:
                break
            b.found = []
            b.stop.clear()
        for k, n in b.known_hits.items():
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k))
        if not code and b.harness and len(b.harness) > max(2, b.runs // 20):
            print("harness errors: %s" % b.harness[:2])
            code = 2
        if not code and b.runs == 0:
            print("no run completed")
            code = 2
        b.evidence(reported)
        print("%d runs in %.0f s, %d answers checked, %d faults fired at %d places, %d states%s" % (
            b.runs, b.search_wall, b.stats["answers-checked"], sum(n for k, n in b.stats.items() if k.startswith("fired:")),
            len(b.sites), len(b.states), ", %d harness errors" % len(b.harness) if b.harness else ""))
        if b.harness and os.environ.get("DST_DEBUG"):
            print(json.dumps(b.harness, indent=1))
    finally:
        shutil.rmtree(b.scratch, ignore_errors=True)
    return code


if __name__ == "__main__":
    sys.exit(main())
