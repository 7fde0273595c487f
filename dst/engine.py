"""Executes one plan under the simulator and judges what happened."""
import contextlib
import copy
import gc
import hashlib
import json
import os
import pickle
import random
import sys
import threading
import traceback
import weakref

import numpy as onp

from . import contexts, inject, oracle as orc, sut, transports, world
from .inject import HarnessError, Injector, SimAbort, SimDeadlock, Scheduler

RTOL64 = 1e-7
PRECISE = 2e-9  # deviation from linearity of a double-precision answer
RTOL32 = 2e-3
RTOL_NEW = 2e-9  # made and used in double precision only


class Outcome:
    __slots__ = ("v", "exc", "msg", "tb")

    def __init__(self, v=None, exc=None, msg="", tb=""):
        self.v, self.exc, self.msg, self.tb = v, exc, msg, tb

    def digest(self):
        if self.exc:
            return "!" + self.exc
        h = hashlib.sha1()
        for x in self.v:
            h.update(str(x.shape).encode())
            h.update(onp.ascontiguousarray(x).tobytes())
        return h.hexdigest()[:16]


def close(v, ref, rtol):
    """None if equal within tolerance, else a description."""
    if len(v) != len(ref):
        return "%d results instead of %d" % (len(v), len(ref))
    for i, (x, r) in enumerate(zip(v, ref)):
        if x.shape != r.shape:
            return "result %d has shape %s instead of %s" % (i, x.shape, r.shape)
        if x.size == 0:
            continue
        fx, fr = onp.isfinite(x), onp.isfinite(r)
        if not onp.array_equal(fx, fr):
            j = int(onp.argmax((fx != fr).ravel()))
            return "result %d[%d] is %r instead of %r" % (i, j, float(x.ravel()[j]), float(r.ravel()[j]))
        if not fr.any():
            continue
        scale = float(onp.max(onp.abs(r[fr])))
        err = onp.abs(onp.where(fx, x, 0) - onp.where(fr, r, 0))
        tol = rtol * (onp.abs(onp.where(fr, r, 0)) + 1e-3 * scale) + 1e-300
        if (err > tol).any():
            j = int(onp.argmax((err / tol).ravel()))
            return "result %d[%d] is %.15g instead of %.15g" % (i, j, float(x.ravel()[j]), float(r.ravel()[j]))
    return None


def _names_diff(a, b):
    out = []
    for m in sorted(set(a) | set(b)):
        d = set(a.get(m, ())) ^ set(b.get(m, ()))
        if d:
            out.append("%s: %s" % (m, ", ".join(sorted(d)[:5])))
    return "; ".join(out)[:300]


class Again:
    """iterable without allocation of its own"""

    def __init__(self, n):
        self.its = [iter(n) for _ in range(9)]

    def __iter__(self):
        return self.its.pop()


class Run:
    def __init__(self, plan, oracle):
        self.plan = plan
        self.oracle = oracle
        self.violations = []
        self.log = []
        self.stats = {}
        self.specs = {}
        self.sites = set()
        self.states = set()
        self.blobs = {}
        self.saved = {}
        self.x64 = True
        self.born = {}
        self.switched = {}
        self.schedule = None

    # ------------------------------------------------------------ utilities
    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, cls, step, detail, **kw):
        self.violations.append({"class": cls, "step": step, "detail": detail[:600], **kw})

    def set_x64(self, on):
        import jax

        jax.config.update("jax_enable_x64", bool(on))
        self.x64 = bool(on)

    # ------------------------------------------------------------ main loop
    def execute(self):
        import jax

        plan = self.plan
        self.set_x64(plan.get("x64", True))
        use_threads = any(s["op"] == "threads" for s in plan["steps"])
        gc.collect()
        gc.disable()
        try:
            with inject.seams(jit=use_threads), contextlib.ExitStack() as chosen:
                self.guard = None
                if plan.get("guard"):
                    from . import procstate

                    self.oracle.start()
                    chosen.enter_context(procstate.settings(plan.get("settings")))
                    self.guard = procstate.Baseline(compiled=True)
                if any(step["op"] != "imports" for step in plan["steps"]):
                    self.jc = sut.load()
                    self.world = world.World(self.jc)
                if self.guard:
                    self.check_guard(-1)
                for i, step in enumerate(plan["steps"]):
                    before = len(self.violations)
                    try:
                        getattr(self, "op_" + step["op"])(i, step)
                    except (HarnessError, SimAbort, KeyError):
                        raise
                    except Exception as e:
                        if not short_tb(e):
                            raise
                        self.violate("raised", i, "%s: %s" % (type(e).__name__, str(e)[:300]), tb=short_tb(e))
                    self.stat("steps")
                    if self.guard:
                        self.check_guard(i)
                    if len(self.violations) > before:
                        break
                if self.guard:
                    self.guard.restore()
        finally:
            gc.enable()
            self.world = None
            self.jc = None
            sut.purge()
            if jax.config.jax_enable_x64 is not True:
                jax.config.update("jax_enable_x64", True)
        return {
            "violations": self.violations, "log": self.log, "stats": self.stats,
            "schedule": self.schedule, "sites": sorted(self.sites), "states": sorted(self.states),
        }

    def check_guard(self, i):
        for d in self.guard.differences():
            self.violate("process-state", i, d)

    def spec_of(self, x):
        return world.resolve(x, self.specs)

    # --------------------------------------------------------------- objects
    def op_new(self, i, s):
        self.specs[s["name"]] = s["spec"]
        given = self.world.given = [] if self.plan.get("check_inputs") and s["spec"]["k"] == "spline" else None
        try:
            self.world.objs[s["name"]] = self.world.build(s["spec"])
            for v, was in given or ():
                if not onp.array_equal(v, was):
                    self.violate("argument-modified", i, "the constructor of %s modified an array it was given" % s["name"])
                    return
                v[...] = -7.25  # the data of a spline are not needed any more
        except Exception as e:
            self.violate("constructor-raised", i, "%s: %s" % (type(e).__name__, e))
            return
        finally:
            self.world.given = None
        self.born[s["name"]] = self.x64
        self.switched[s["name"]] = False
        self.log.append([i, "new", s["name"]])
        self.remember(s["name"])

    def remember(self, name):
        if self.plan.get("check_inputs"):
            self.saved[name] = snapshot(self.world.objs[name])

    def op_reborn(self, i, s):
        """Drop an object and make another one at the same address, if possible."""
        spec = s["spec"]
        self.saved.pop(s["name"], None)
        if s.get("gc"):
            gc.collect()
        keep, hit, slot = [None] * 20000, False, [None]
        rounds, slots = [0] * 4, Again(range(20000))
        old = self.world.objs.pop(s["name"])
        addr, cls = id(old), type(old)
        self.world.release = (cls, slot)
        rounds = iter(rounds)
        old = None
        for attempt in rounds:
            # hold the old one's place until the new one is constructed
            try:
                for n in slots:
                    slot[0] = object.__new__(cls)
                    if id(slot[0]) == addr:
                        break
                    keep[n] = slot[0]
            except TypeError:
                pass
            o = self.world.build(spec)
            if id(o) == addr:
                hit = True
                break
            slot.append(None)
        self.world.release = None
        self.stat("address-reused" if hit else "address-not-reused")
        self.specs[s["name"]] = spec
        self.world.objs[s["name"]] = o
        self.born[s["name"]] = self.x64
        self.switched[s["name"]] = False
        del keep
        self.remember(s["name"])
        self.log.append([i, "reborn"])

    def op_drop(self, i, s):
        self.world.objs.pop(s["name"], None)
        self.saved.pop(s["name"], None)
        self.log.append([i, "drop", s["name"]])

    def op_gc(self, i, s):
        gc.collect()
        self.stat("gc")

    def op_rebuild(self, i, s):
        """new objects with the same content, in the same process"""
        for n in list(self.world.objs):
            self.world.objs[n] = None
        for n in list(self.world.objs):
            self.world.objs[n] = self.world.build(self.specs[n])
            self.remember(n)
        self.log.append([i, "rebuild"])

    def op_mutate(self, i, s):
        """the owner of one object overwrites it in place; `other` is a copy of it"""
        before = snapshot(self.world.objs[s["other"]])
        n = vandalise(self.world.objs.pop(s["name"]), random.Random(s["seed"]))
        self.saved.pop(s["name"], None)
        self.stat("copies-overwritten", n)
        d = before.changed(self.world.objs[s["other"]])
        if d:
            self.violate("not-independent", i, "overwriting a copy of %s changed it: %s" % (s["other"], d))
        self.log.append([i, "mutate", n])

    def op_batch(self, i, s):
        """different objects of one structure, carried as one batch"""
        import jax
        import jax.numpy as jnp
        from jax import lax

        q, names = s["q"], s["names"]
        tu = jax.tree_util
        w = self.world
        first = self.world.objs[names[0]]
        structs = [tu.tree_structure(w.objs[n]) for n in names]
        if any(t != structs[0] for t in structs):
            return self.violate("role-changed", i, "objects that differ in numbers only differ in structure: %s" % (names,))
        st = tu.tree_map(lambda *x: jnp.stack([jnp.asarray(v, dtype=float) for v in x]), *[w.objs[n] for n in names])
        G, objs = self.closure(q)
        arrs = self.arrays(q, "jnp")
        n0 = names[0]
        del first

        def one(o):
            return G(arrs, {**objs, n0: o})

        how = s["how"]
        try:
            if how == "vmap":
                rows = jax.vmap(one)(st)
            elif how == "map":
                rows = lax.map(one, st)
            elif how == "scan":
                rows = lax.scan(lambda c, o: (c, one(o)), 0.0, st)[1]
            elif how == "unstack":
                each = [one(tu.tree_map(lambda x: x[j], st)) for j in range(len(names))]
                rows = [jnp.stack(x) for x in zip(*each)]
            else:
                rows = jax.jit(lambda st: [jnp.stack(x) for x in zip(*[one(tu.tree_map(lambda x: x[j], st)) for j in range(len(names))])])(st)
            outs = [Outcome(v=[onp.asarray(r[j], dtype=onp.float64) for r in rows]) for j in range(len(names))]
        except Exception as e:
            outs = [Outcome(exc=type(e).__name__, msg=str(e)[:300], tb=short_tb(e))]
        self.stat("ctx:batch-" + how)
        self.log.append([i, "batch", how, [o.digest() for o in outs]])
        for n, o in zip(names, outs):
            if not self.judge(i, rename(q, {x: (n if x == n0 else x) for x in world.refs_of(q)}), o, "in a batch (%s)" % how, strict_exc=False):
                return

    def op_transport(self, i, s):
        o = self.world.objs[s["name"]]
        try:
            for h in s["how"]:
                o = transports.transport(h, o)
                self.stat("transport:" + h)
        except Exception as e:
            self.violate("transport-failed", i, "%s via %s: %s: %s" % (
                s["name"], s["how"], type(e).__name__, str(e)[:300]), tb=short_tb(e))
            return
        to = s.get("to", s["name"])
        self.specs[to] = self.specs[s["name"]]
        self.born[to] = self.born.get(s["name"], True)
        self.switched[to] = self.switched.get(s["name"], False)
        self.world.objs[to] = o
        fresh = self.world.build(self.spec_of(self.specs[to]))
        d = diff_desc(self.describe(o), self.describe(fresh))
        if d:
            self.violate("role-changed", i, "%s via %s: %s" % (s["name"], s["how"], d))
        self.log.append([i, "transport", to])
        self.remember(to)

    def describe(self, o):
        def leaf(v):
            try:
                return onp.asarray(v, dtype=onp.float64)
            except Exception as e:
                return "unusable:" + type(e).__name__

        return world.describe(o, leaf)

    # --------------------------------------------------------------- queries
    def arrays(self, q, conv):
        """Query abscissae in the user's representation."""
        import jax.numpy as jnp

        out = {}
        for k in world.ARRAY_ARGS:
            if k in q:
                v = onp.array(q[k], dtype=onp.float64)
                if conv == "np":
                    out[k] = v
                elif conv == "npro":
                    v.setflags(write=False)
                    out[k] = v
                elif conv == "f32":
                    out[k] = v.astype(onp.float32)
                else:
                    out[k] = jnp.asarray(v)
        return out

    def reuse(self, arrs):
        """the caller keeps one array per argument and shape, and overwrites it"""
        if not hasattr(self, "bufs"):
            self.bufs = {}
        for k, v in arrs.items():
            if type(v) is onp.ndarray and v.flags.writeable:
                b = self.bufs.setdefault((k, v.shape), v)
                if b is not v:
                    b[...] = v
                    arrs[k] = b
                    self.stat("argument-arrays-reused")

    def closure(self, q, w=None):
        """The query as a function of its arrays and of the objects it mentions."""
        w = w or self.world
        names = sorted(set(world.refs_of(q)))
        if any(n not in w.objs for n in names):  # (in a plan cut short by the minimiser)
            raise HarnessError("the query mentions objects that are not there")
        objs = {n: w.objs[n] for n in names}

        def G(arrs, objs):
            def get(s):
                if "ref" in s:
                    return objs[s["ref"]]
                return w.build(s)

            def conv(v, nm):
                if nm in arrs:
                    return arrs[nm]
                import jax.numpy as jnp

                return jnp.asarray(onp.array(v, dtype=onp.float64))

            kinds = {type(v) for v in arrs.values()}
            conv.style = None
            if kinds == {onp.ndarray}:
                conv.style = "np" if all(v.flags.writeable for v in arrs.values()) else "npro"
            r = w.run_query(q, get, conv)
            return _flatlist(r)

        return G, objs

    def ask(self, q, layers=(), arrs=None, G=None, objs=None):
        """Ask the library; never raises except for harness problems."""
        if G is None:
            G, objs = self.closure(q)
        if arrs is None:
            arrs = self.arrays(q, "jnp")
        F = contexts.apply_layers(layers, G) if layers else G
        try:
            raw = F(arrs, objs)
            v = [onp.asarray(x, dtype=onp.float64) for x in raw]
            return Outcome(v=v), raw
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) and not getattr(self, "_injecting", False):
                raise
            o = Outcome(exc=type(e).__name__, msg=str(e)[:400], tb=short_tb(e))
            e.__traceback__ = None
            return o, None

    def tol(self, q, loose=False):
        if self.plan.get("mode") == "precision":
            names = self.closure_names(q)
            ok = self.x64 and all(self.born.get(n) and not self.switched.get(n) for n in names)
            return RTOL_NEW if ok else None if loose else RTOL32
        return RTOL64 if self.x64 else RTOL32

    def closure_names(self, q):
        todo, seen = list(world.refs_of(q)), set()
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                todo += world.refs_of(self.specs.get(n, {}))
        return seen

    def judge(self, i, q, out, what="", strict_exc=True, loose=False):
        """Compare with the answer of a pristine process."""
        if self.plan.get("repro"):
            return True  # compared between processes instead
        ref = self.oracle.query(self.spec_of(q))
        self.stat("answers-checked")
        if out.exc:
            if "exc" in ref:
                self.stat("refused-as-expected")
                return True
            self.violate("raised", i, "%s %s raised %s: %s (a pristine process answers)" % (
                q["q"], what, out.exc, out.msg), tb=out.tb)
            return False
        if "exc" in ref:
            if strict_exc:
                self.violate("answered-invalid", i, "%s %s answered, a pristine process raises %s" % (
                    q["q"], what, ref["exc"]))
                return False
            return True
        tol = self.tol(q, loose)
        if tol is None:
            self.stat("answered-in-single-precision")
            return True
        d = close(out.v, ref["v"], tol)
        if d:
            self.violate("wrong-answer", i, "%s %s: %s" % (q["q"], what, d))
            return False
        return True

    def op_query(self, i, s):
        q = s["q"]
        layers = s.get("ctx", [])
        conv = s.get("conv", "jnp")
        arrs = self.arrays(q, conv)
        if s.get("buf"):
            self.reuse(arrs)
        fault = s.get("fault")
        if fault:
            return self.faulted(i, s, q, layers, arrs, fault)
        sent = {k: onp.array(v, copy=True) for k, v in arrs.items()}
        self.world.given = [] if self.plan.get("check_inputs") else None
        out, raw = self.ask(q, layers, arrs)
        given, self.world.given = self.world.given, None
        self.log.append([i, q["q"], layers, out.digest()])
        for l in layers:
            self.stat("ctx:" + l)
        self.states.add(hashlib.sha1(json.dumps([q["q"], layers, self.memo_state(q)]).encode()).hexdigest()[:10])
        ok = self.judge(i, q, out, "in %s" % layers if layers else "", strict_exc=not layers, loose=s.get("loose", False))
        if ok and self.plan.get("check_inputs"):
            self.check_inputs(i, q, arrs, sent, given)
        if ok and s.get("then"):
            self.scribble(i, s, q, layers, arrs, raw)
            for v, _ in given or ():
                if isinstance(v, list):
                    v.clear()
                elif v.flags.writeable:
                    v[...] = s.get("junk", -7.25)

    def op_precise(self, i, s):
        """Whether an answer follows changes of its input far below single precision.

        All numbers the answer depends on move together, by 3e-8 and by 16 times as much:
        in double precision the answer moves 16 times as much as well."""
        q = self.spec_of(s["q"])
        worst = self.roughness(q, s["seed"], 1)
        if worst is not None and worst[0] > PRECISE:
            # not a place where the answer has a kink: seen going the other way too
            worst = min(worst, self.roughness(q, s["seed"], -1) or worst)
        if worst is None:
            self.stat("precision-not-measured")
            return
        self.stat("precision-measured")
        self.log.append([i, "precise", q["q"]])
        if os.environ.get("DST_SHOW_PRECISION"):
            sys.stderr.write("PRECISE %s %.3g %s\n" % (q["q"], worst[0], worst[1]))
        if worst[0] > PRECISE:
            self.violate("imprecise", i, "%s: result %d[%d] = %.15g moves by %.3g, and by %.3g when the input moves 16 times as much: "
                         "this is not double precision" % ((q["q"],) + worst[1]))

    def roughness(self, q, seed, sign):
        vs = []
        for n in (0, 1, 16):
            out, raw = self.ask(world.nudged(q, sign * n * 2.0**-25, seed))
            if out.exc:
                return None
            vs.append(out.v)
        worst = (0.0, (0, 0, 0.0, 0.0, 0.0))
        for r, (a, b, c) in enumerate(zip(*vs)):
            if not a.size or not (onp.isfinite(a).all() and onp.isfinite(b).all() and onp.isfinite(c).all()):
                continue
            # answers that vanish (f_de of a cosmological constant) are of the size of O(1) numbers that cancel
            scale = onp.abs(a) + 1e-2 * onp.max(onp.abs(a)) + (1.0 if not a.any() else 0.0) + 1e-300
            e = onp.abs((b - a) - (c - a) / 16.0) / scale
            j = int(onp.argmax(e))
            if e.ravel()[j] > worst[0]:
                worst = (float(e.ravel()[j]), (r, j, float(a.ravel()[j]), float(b.ravel()[j] - a.ravel()[j]), float(c.ravel()[j] - a.ravel()[j])))
        return worst

    def memo_state(self, q):
        """A measure of the history a query met (which objects were asked what before)."""
        h = []
        for n in sorted(set(world.refs_of(q))):
            seen = self.plan_history.setdefault(n, []) if hasattr(self, "plan_history") else None
            if seen is None:
                self.plan_history = {}
                seen = self.plan_history.setdefault(n, [])
            h.append(list(seen)[-3:])
            seen.append(q["q"])
        return h

    # ---- a query cut short
    def faulted(self, i, s, q, layers, arrs, fault):
        inj = Injector(fault)
        self._injecting = True
        raw = None
        saved_hook = self.world.hook
        try:
            if fault["kind"] == "user":
                self.world.hook = inj.user
                cm = contextlib.nullcontext()
            elif fault["kind"] == "line":
                cm = inject.monitored(line=inj.line)
            else:
                cm = inject.monitored(call=inj.call)
            sent = {k: onp.array(v, copy=True) for k, v in arrs.items()}
            self.world.given = [] if self.plan.get("check_inputs") else None
            try:
                with cm:
                    out, raw = self.ask(q, layers, arrs)
            except inject.SimAbort:
                raise
        finally:
            self._injecting = False
            self.world.hook = saved_hook
        fired = inj.where is not None
        self.stat(("fired:" if fired else "unfired:") + fault["kind"] + ":" + fault["exc"])
        if fired:
            self.sites.add(inj.where)
        self.log.append([i, q["q"], layers, "fault", inj.where, out.digest()])
        del raw
        given, self.world.given = self.world.given, None
        if self.plan.get("check_inputs"):
            self.check_inputs(i, q, arrs, sent, given)
        if out.exc and fired:
            inj.exc = None
            return
        inj.exc = None
        # it did not fire, or the call recovered: the answer must be right
        self.judge(i, q, out, "(recovered from %s)" % inj.where if fired else "", strict_exc=False)

    # ---- calls made while another one runs
    def op_nested(self, i, s):
        import jax

        q, layers = s["q"], s.get("ctx", [])
        done = []

        def one(op):
            if "snap" in op:
                try:
                    o = self.world.objs[op["snap"]]
                    if op.get("how") != "deepcopy":
                        return pickle.dumps(o)
                    with jax.ensure_compile_time_eval():  # a copy made in a trace is part of it
                        return copy.deepcopy(o)
                except (SimAbort, HarnessError):
                    raise
                except Exception as e:
                    return Outcome(exc=type(e).__name__, msg=str(e)[:300], tb=short_tb(e))
            iq = op["q"]
            with jax.ensure_compile_time_eval() if op.get("concrete") else contextlib.nullcontext():
                G, objs = self.closure(iq)
                F = contexts.apply_layers(op["ctx"], G) if op.get("ctx") else G
                try:
                    raw = F(self.arrays(iq, "jnp"), objs)
                    if any(isinstance(x, jax.core.Tracer) for x in raw):
                        return Outcome(v=[])  # part of a computation being traced
                    return Outcome(v=[onp.asarray(x, dtype=onp.float64) for x in raw])
                except (SimAbort, HarnessError):
                    raise
                except Exception as e:
                    o = Outcome(exc=type(e).__name__, msg=str(e)[:400], tb=short_tb(e))
                    e.__traceback__ = None
                    return o

        def action(j, where):
            hook, self.world.hook = self.world.hook, None
            try:
                for op in s["points"][j]["ops"]:
                    done.append((j, where, op, one(op)))
            finally:
                self.world.hook = hook

        nest = inject.Nest(s["points"], action)
        kinds = {p["kind"] for p in s["points"]}
        try:
            if "user" in kinds:
                self.world.hook = nest.user
            with inject.monitored(line=nest.line) if "line" in kinds else contextlib.nullcontext():
                out, raw = self.ask(q, layers, self.arrays(q, "jnp"))
        finally:
            self.world.hook = None
        del raw
        for p in s["points"]:
            reached = nest.n[p["kind"]] >= p["k"]
            self.stat(("fired:nested:" if reached else "unfired:nested:") + p["kind"])
        log = []
        for j, where, op, r in done:
            self.sites.add(where)
            self.states.add(hashlib.sha1(json.dumps([where, q["q"], op.get("q", {}).get("q"), layers, op.get("ctx")]).encode()).hexdigest()[:10])
            log.append([j, where, r.digest() if isinstance(r, Outcome) else "snapshot"])
        self.log.append([i, q["q"], layers, "nested", log, out.digest()])
        for p in s["points"]:  # not reached: they are saved now
            for op in p["ops"]:
                if "snap" in op and not any(op is d[2] for d in done):
                    done.append((0, "the end", op, one(op)))
        for p in s["points"]:
            for op in p["ops"]:
                if "snap" in op:  # until the snapshot is known to be good
                    self.specs[op["to"]] = self.specs[op["snap"]]
                    self.world.objs[op["to"]] = self.world.objs[op["snap"]]
                    self.born[op["to"]] = True
        for j, where, op, r in done:
            if not isinstance(r, Outcome):
                try:
                    self.world.objs[op["to"]] = pickle.loads(r) if isinstance(r, bytes) else r
                except Exception as e:
                    self.violate("snapshot-failed", i, "%s, saved at %s: %s: %s" % (op["snap"], where, type(e).__name__, str(e)[:300]))
                    return
                self.stat("snapshots")
            elif r.exc == "SimDeadlock" and not where.startswith("user:"):
                self.stat("inconclusive-lock-held")
                return
            elif r.exc == "RecursionError" and "Recursively calling <weakref" in r.msg:
                # JAX does not let a function be entered again while it compiles it
                self.stat("refused-while-compiled")
                return
            elif "snap" in op:
                self.violate("snapshot-failed", i, "%s, saved at %s: %s: %s" % (op["snap"], where, r.exc, r.msg), tb=r.tb)
                return
            elif r.v == []:
                self.stat("nested-in-a-trace")
            elif not self.judge(i, op["q"], r, "asked while %s was at %s%s" % (q["q"], where, " in %s" % op["ctx"] if op.get("ctx") else ""), strict_exc=not op.get("ctx")):
                return
        self.judge(i, q, out, "during which other queries were made (at %s)" % ", ".join(sorted({d[1] for d in done})), strict_exc=not layers)

    # ---- the caller reuses or releases its data
    def scribble(self, i, s, q, layers, arrs, raw):
        how = s["then"]
        for k, v in arrs.items():
            if isinstance(v, onp.ndarray):
                if v.flags.writeable:
                    v[...] = s.get("junk", -7.25)
            elif how in ("delete", "delete_all"):
                v.delete()
        if raw is not None and how in ("delete_results", "delete_all"):
            for x in raw:
                if hasattr(x, "delete") and hasattr(x, "is_deleted"):
                    try:
                        if not x.is_deleted() and not self.is_param(x):
                            x.delete()
                    except Exception:
                        pass
            self.stat("results-deleted")
        self.stat("scribbled")

    def is_param(self, x):
        """a result that is the caller's own parameter object, handed back"""
        import jax

        for o in self.world.objs.values():
            for l in jax.tree_util.tree_leaves(o):
                if l is x:
                    return True
        return False

    def check_inputs(self, i, q, arrs, sent, given=None):
        for v, was in given or ():
            same = len(v) == len(was) and all(x is y for x, y in zip(v, was)) if isinstance(v, list) else \
                onp.array_equal(v, was, equal_nan=True)
            if not same:
                self.violate("argument-modified", i, "%s modified a%s it was given" % (
                    q["q"], " list" if isinstance(v, list) else "n array"))
                return
        self.stat("arguments-compared", len(arrs) + len(given or ()))
        for k, v in arrs.items():
            try:
                now = onp.asarray(v)
            except Exception as e:
                self.violate("argument-destroyed", i, "%s argument %s: %s" % (q["q"], k, e))
                return
            if not onp.array_equal(now, sent[k], equal_nan=True):
                self.violate("argument-modified", i, "%s modified its argument %s" % (q["q"], k))
                return
        for n, snap in self.saved.items():
            d = snap.changed(self.world.objs[n])
            if d:
                self.violate("object-modified", i, "%s modified %s: %s" % (q["q"], n, d))
                return

    # ---- user-level compiled function, reused with several objects
    def op_ujit(self, i, s):
        """A user-compiled function of (arrays, objects), kept and called again."""
        import jax

        q = s["q"]
        fid = s["id"]
        if not hasattr(self, "ufns"):
            self.ufns = {}
        slots = s["slots"]  # object names in the roles the function was written for
        if fid not in self.ufns:
            roles = {n: "r%d" % j for j, n in enumerate(slots)}
            qq = rename(q, roles)
            w = self.world

            def G(arrs, objs):
                return _flatlist(w.run_query(
                    qq, lambda sp: objs[sp["ref"]] if "ref" in sp else w.build(sp),
                    lambda v, nm: arrs[nm] if nm in arrs else onp.array(v, dtype=onp.float64)))

            wrap = s.get("wrap", "jit")
            if wrap == "jit":
                F = jax.jit(G)
            elif wrap == "vmap":
                F = jax.jit(lambda a, o: [x[1] for x in jax.vmap(G, in_axes=(None, 0))(a, o)])
            elif wrap == "grad":
                F = jax.jit(lambda a, o: jax.value_and_grad(
                    lambda o: (contexts._total(G(a, o)), G(a, o)), has_aux=True)(o)[0][1])
            else:
                F = jax.jit(jax.checkpoint(G))
            self.ufns[fid] = (F, wrap)
        F, wrap = self.ufns[fid]
        objs = {"r%d" % j: self.world.objs[n] for j, n in enumerate(slots)}
        if wrap == "vmap":
            objs = contexts._stack2(objs)
        elif wrap == "grad":
            objs = contexts._arrays(objs)
        arrs = self.arrays(q, "jnp")
        try:
            raw = F(arrs, objs)
            out = Outcome(v=[onp.asarray(x, dtype=onp.float64) for x in raw])
        except Exception as e:
            out = Outcome(exc=type(e).__name__, msg=str(e)[:300], tb=short_tb(e))
        self.stat("ctx:user-compiled-" + wrap)
        self.log.append([i, "ujit", fid, out.digest()])
        self.judge(i, q, out, "in a user-compiled function", strict_exc=False)

    # ------------------------------------------------------------- precision
    def op_x64(self, i, s):
        self.set_x64(s["on"])
        for n in self.switched:
            self.switched[n] = True
        self.stat("precision-switch")
        self.log.append([i, "x64", s["on"]])

    def op_query_x64(self, i, s):
        """A query inside a scope with its own precision"""
        import jax

        was = self.x64
        for n in self.closure_names(s["q"]):
            if was != s["on"]:
                self.switched[n] = True
        self.x64 = s["on"]
        try:
            with jax.enable_x64(s["on"]):
                self.op_query(i, {k: v for k, v in s.items() if k != "on"})
        finally:
            self.x64 = was
        self.stat("precision-scope")

    # -------------------------------------------------------- crash, restart
    def op_snapshot(self, i, s):
        o = self.world.objs[s["name"]]
        try:
            if s.get("how") == "deepcopy":
                c = copy.deepcopy(o)
                self.world.objs[s["to"]] = c
                self.specs[s["to"]] = self.specs[s["name"]]
                self.born[s["to"]] = self.born.get(s["name"], True)
                self.switched[s["to"]] = False
                d = diff_desc(self.describe(c), self.describe(self.world.build(self.spec_of(self.specs[s["to"]]))))
                if d:
                    self.violate("copy-differs", i, d)
                self.remember(s["to"])
            else:
                self.blobs[s["to"]] = (pickle.dumps(o, protocol=s.get("protocol", 4)), self.specs[s["name"]])
        except Exception as e:
            self.violate("snapshot-failed", i, "%s: %s" % (type(e).__name__, str(e)[:300]), tb=short_tb(e))
        self.stat("snapshots")
        self.log.append([i, "snapshot", s["name"]])

    def op_restore(self, i, s):
        """in the same process"""
        if s["from"] not in self.blobs:
            return
        b, spec = self.blobs[s["from"]]
        try:
            o = pickle.loads(b)
        except Exception as e:
            self.violate("restore-failed", i, "%s: %s" % (type(e).__name__, str(e)[:300]))
            return
        self.world.objs[s["to"]] = o
        self.specs[s["to"]] = spec
        self.born[s["to"]] = True
        self.switched[s["to"]] = False
        self.stat("restores")
        d = diff_desc(self.describe(o), self.describe(self.world.build(self.spec_of(spec))))
        if d:
            self.violate("restored-differs", i, d)
        self.remember(s["to"])

    def op_crash(self, i, s):
        """The process dies; a new one has only the bytes that were saved."""
        if not self.blobs:
            return
        qs = s["qs"]
        usable = [q for q in qs if all(n in self.blobs or n in s.get("inline", {}) for n in world.refs_of(q))]
        if not usable:
            return
        blobs = {n: b for n, (b, _) in self.blobs.items()}
        ans = self.oracle.restored(blobs, usable, s.get("prelude", []))
        self.stat("crash-restarts")
        specs = {n: sp for n, (_, sp) in self.blobs.items()}
        if "exc" in ans:
            self.violate("restore-failed", i, "%s: %s" % (ans["exc"], ans["msg"]))
            return
        for q, a in zip(usable, ans["many"]):
            ref = self.oracle.query(world.resolve(q, {**self.specs, **specs}))
            self.stat("answers-checked")
            if "exc" in a:
                if "exc" not in ref:
                    self.violate("raised", i, "%s after restart raised %s: %s" % (q["q"], a["exc"], a["msg"]))
                    return
            elif "v" in ref:
                d = close(a["v"], ref["v"], RTOL64)
                if d:
                    self.violate("wrong-answer", i, "%s after restart: %s" % (q["q"], d))
                    return
        self.log.append([i, "crash", len(usable)])

    # --------------------------------------------------------------- imports
    def op_imports(self, i, s):
        """a new process imports the library, perhaps after failed attempts"""
        from .importer import Importer

        mods = sorted({m for a in s["attempts"] for m in a["names"]} | set(s["complete"]))
        a = Importer.call(dict(s, complete=mods))
        if "harness" in a:
            raise HarnessError(a["harness"])
        self.stat("processes")
        if "died" in a:
            self.violate("import-failed", i, a["died"])
            return
        for w in a["where"]:
            self.sites.add(w)
        for f, r in a["attempts"]:
            self.stat("fired:" + f if f != "none" else "imports-undisturbed")
        self.states.add(hashlib.sha1(json.dumps([a["attempts"], a["where"], s["before"], s["after"]]).encode()).hexdigest()[:12])
        for kind, what in a["bad"]:
            self.violate(kind, i, what)
            return
        clean = Importer.undisturbed()
        clean = {m: clean.get("public", {}).get(m) for m in a["public"]}
        if a["public"] != clean:
            self.violate("import-incomplete", i, "after %s the modules offer other names: %s" % (a["attempts"], _names_diff(a["public"], clean)))
            return
        x64 = any(n == "jax_enable_x64" and v for n, v in s["before"] + s["after"])
        for q, r in zip(s["qs"], a["answers"]):
            ref = self.oracle.query(world.resolve(q, {}), x64=True)
            self.stat("answers-checked")
            if "exc" in r:
                if "exc" not in ref:
                    self.violate("raised", i, "%s raised %s: %s" % (q["q"], r["exc"], r["msg"]))
                    return
            elif "v" in ref:
                d = close(r["v"], ref["v"], RTOL64 if x64 else 5e-2)
                if d:
                    self.violate("wrong-answer", i, "%s (imports: %s): %s" % (q["q"], a["attempts"], d))
                    return
        self.log.append([i, "imports", a["attempts"], a["where"], [Outcome(r.get("v"), r.get("exc")).digest() for r in a.get("answers", [])]])

    # --------------------------------------------------------------- threads
    def op_threads(self, i, s):
        import jax

        n = len(s["threads"])
        for ops in s["threads"]:
            for op in ops:
                if "x64" in op:
                    for nm in self.closure_names(op["q"]):
                        self.switched[nm] = True
        made = {op["name"] for ops in s["threads"] for op in ops if op.get("op") == "new"}
        for ops in s["threads"]:
            for op in ops:
                if op.get("op") == "snapshot" and op["name"] not in made:
                    self.world.objs[op["name"]]  # a schedule cut down past this object is no schedule
        results = [[] for _ in range(n)]
        sched = Scheduler(n, s["sched"])
        calls = []
        saving = set()

        def body(t):
            def go():
                for j, op in enumerate(s["threads"][t]):
                    if op.get("op") == "snapshot":
                        try:
                            o = self.world.objs[op["name"]]
                            saving.add(threading.get_ident())
                            if op.get("how") == "deepcopy":
                                r = ("copy", copy.deepcopy(o), op)
                            else:
                                r = ("blob", pickle.dumps(o), op)
                        except SimAbort:
                            raise
                        except Exception as e:
                            r = ("failed", "%s: %s" % (type(e).__name__, str(e)[:300]), op)
                        finally:
                            saving.discard(threading.get_ident())
                        results[t].append(r)
                        continue
                    if op.get("op") == "new":
                        try:
                            self.world.objs[op["name"]] = self.world.build(op["spec"])
                            self.specs[op["name"]] = op["spec"]
                        except SimAbort:
                            raise
                        except Exception as e:
                            results[t].append(("failed", "%s: %s" % (type(e).__name__, str(e)[:300]), op))
                        continue
                    start = sched.ev
                    inj = Injector(op["fault"]) if op.get("fault") else None
                    if inj:
                        self._tl_inj[threading.get_ident()] = inj
                    scope = contextlib.nullcontext()
                    if "x64" in op:
                        scope = jax.enable_x64(op["x64"])
                    try:
                        with scope:
                            out, raw = self.ask(op["q"], op.get("ctx", []), self.arrays(op["q"], "jnp"))
                    finally:
                        self._tl_inj.pop(threading.get_ident(), None)
                    del raw
                    calls.append((t, j, start, sched.ev))
                    results[t].append(("answer", out, op, inj.where if inj else None))
            return go

        self._tl_inj = {}
        # code that walks through an object: points of the schedule only while saving one
        # (JAX copies things of its own while it holds locks)
        savers = set(inject.savers()) if any(op.get("op") == "snapshot" for ops in s["threads"] for op in ops) else ()

        def point(*a):
            if a[0] in savers and threading.get_ident() not in saving:
                return
            inj = self._tl_inj.get(threading.get_ident())
            if inj is not None and len(a) == 2:
                inj.line(*a)
            sched.point(*a)

        def ipoint(*a):
            if a[0] not in savers or threading.get_ident() in saving:
                sched.point(*a)

        inject.set_sched(sched)
        gran = s["sched"].get("gran", "line")
        try:
            with inject.monitored(line=point, instr=ipoint if gran == "instr" else None, extra=savers):
                sched.run([body(t) for t in range(n)])
        finally:
            inject.set_sched(None)
        self.schedule = {"switches": sched.switches, "handoffs": sched.handoffs, "step": i}
        self.stat("scheduling-points", sched.ev)
        self.stat("preemptions", len(sched.switches))
        self.states.add(hashlib.sha1(json.dumps([sched.switches, sched.handoffs, s["threads"]]).encode()).hexdigest()[:12])
        self.log.append([i, "threads", sched.ev, hashlib.sha1(json.dumps([sched.switches, sched.handoffs]).encode()).hexdigest()[:10],
                         [[r[1].digest() if r[0] == "answer" else r[0] for r in rs] for rs in results]])
        if sched.deadlock:
            if all(l.startswith("jit:") for _, l in sched.deadlock):
                self.stat("inconclusive-jit-wait")
                return
            self.violate("deadlock", i, "all threads wait: %s" % (sched.deadlock,))
            return
        for t in range(n):
            for r in results[t]:
                if r[0] == "answer":
                    _, out, op, where = r
                    if where is not None:
                        self.stat("fired:line:" + op["fault"]["exc"])
                        self.sites.add(where)
                        if out.exc:
                            continue
                    if not self.judge(i, op["q"], out, "in thread %d" % t, strict_exc=False):
                        return
                elif r[0] == "failed":
                    self.violate("snapshot-failed" if r[2].get("op") == "snapshot" else "raised", i,
                                 "thread %d, %s of %s: %s" % (t, r[2]["op"], r[2]["name"], r[1]))
                    return
                else:
                    op = r[2]
                    self.stat("snapshots")
                    if r[0] == "copy":
                        self.world.objs[op["to"]] = r[1]
                        self.specs[op["to"]] = self.specs[op["name"]]
                        self.born[op["to"]] = True
                    else:
                        self.blobs[op["to"]] = (r[1], self.specs[op["name"]])

    # ---------------------------------------------------------- derivatives
    def op_program(self, i, s):
        from . import derivs

        derivs.run_program(self, i, s)

    # --------------------------------------------------------------- memory
    def op_memory(self, i, s):
        from . import memory

        memory.run(self, i, s)


# ------------------------------------------------------------------ helpers


def _flatlist(r):
    if isinstance(r, (list, tuple)):
        out = []
        for x in r:
            out += _flatlist(x)
        return out
    return [r]


def rename(q, roles):
    if isinstance(q, dict):
        if set(q) == {"ref"}:
            return {"ref": roles[q["ref"]]}
        return {k: rename(v, roles) for k, v in q.items()}
    if isinstance(q, list):
        return [rename(v, roles) for v in q]
    return q


def short_tb(e):
    try:
        fr = traceback.extract_tb(e.__traceback__)
    except Exception:
        return ""
    own = [f for f in fr if "/jax_cosmo/" in f.filename]
    return " < ".join("%s:%d" % (f.filename.split("/jax_cosmo/")[-1], f.lineno) for f in own[-4:][::-1])


def diff_desc(a, b, path=""):
    if type(a) is not type(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            pass
        else:
            return "%s: %s instead of %s" % (path, short(a), short(b))
    if isinstance(a, dict):
        if a.get("type") != b.get("type"):
            return "%s: kind %s instead of %s" % (path, a.get("type"), b.get("type"))
        if set(a) != set(b):
            return "%s: fields %s instead of %s" % (path, sorted(a), sorted(b))
        for k in a:
            d = diff_desc(a[k], b[k], path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d entries instead of %d" % (path, len(a), len(b))
        for j, (x, y) in enumerate(zip(a, b)):
            d = diff_desc(x, y, path + "[%d]" % j)
            if d:
                return d
        return None
    if isinstance(a, onp.ndarray):
        if a.shape != b.shape or not onp.allclose(a, b, rtol=1e-6, atol=0, equal_nan=True):
            return "%s: %s instead of %s" % (path, short(a), short(b))
        return None
    return None if a == b else "%s: %r instead of %r" % (path, a, b)


def short(x):
    return repr(x)[:80]


def vandalise(o, R, depth=0):
    """overwrite in place whatever an owner can reach: arrays, lists, options"""
    n = 0
    if depth > 4:
        return 0
    if isinstance(o, onp.ndarray):
        if o.flags.writeable and o.dtype.kind == "f":
            o[...] = o * 1.9 + 0.3
            n += 1
    elif isinstance(o, list):
        for x in o:
            n += vandalise(x, R, depth + 1)
        R.choice([o.clear, o.reverse, lambda: o.append(o[0] if o else 0)])()
        n += 1
    elif isinstance(o, tuple):
        for x in o:
            n += vandalise(x, R, depth + 1)
    elif isinstance(o, dict):
        for k in list(o):
            n += vandalise(o[k], R, depth + 1)
            if isinstance(o[k], (int, float)) and not isinstance(o[k], bool):
                o[k] = o[k] * 0.5 + 0.25
                n += 1
            elif isinstance(o[k], bool):
                o[k] = not o[k]
                n += 1
    elif type(o).__name__ == "Cosmology":
        for f in world.COSMO_PARAMS + ["gamma"]:
            n += vandalise(getattr(o, f), R, depth + 1)
    elif hasattr(o, "params") and hasattr(o, "config"):
        n += vandalise(o.params, R, depth + 1) + vandalise(o.config, R, depth + 1)
        if hasattr(o, "gals_per_arcmin2"):
            n += vandalise(o.gals_per_arcmin2, R, depth + 1)
    return n


class snapshot:
    """Identity and content of an object's parameters, lists and options."""

    def __init__(self, o):
        self.items = dict(_walk(o))

    def changed(self, o):
        now = dict(_walk(o))
        if set(now) != set(self.items):
            return "structure %s" % sorted(set(now) ^ set(self.items))[:4]
        for k, v in now.items():
            w = self.items[k]
            if isinstance(v, tuple) and isinstance(w, tuple):
                if v != w:
                    return "%s: %s instead of %s" % (k, v, w)
            elif isinstance(v, onp.ndarray) and isinstance(w, onp.ndarray):
                if v.shape != w.shape or not onp.array_equal(v, w, equal_nan=True):
                    return "%s: %s instead of %s" % (k, short(v), short(w))
            elif type(v) is not type(w) or v != w:
                return "%s: %s instead of %s" % (k, short(v), short(w))
        return None


def _walk(o, path=""):
    t = type(o).__name__
    if isinstance(o, (bool, str, int)) or o is None:
        yield path, o
    elif isinstance(o, float):
        yield path, onp.array(o)
    elif isinstance(o, (onp.ndarray, onp.generic)) or (hasattr(o, "dtype") and hasattr(o, "shape")):
        try:
            yield path, onp.array(o, copy=True)
        except Exception as e:
            yield path, ("unusable", type(e).__name__)
    elif isinstance(o, (list, tuple)):
        yield path, (len(o),)
        for j, x in enumerate(o):
            yield from _walk(x, path + "[%d]" % j)
    elif isinstance(o, dict):
        yield path, ("dict", tuple(sorted(map(str, o))))
        for k in sorted(o, key=str):
            yield from _walk(o[k], path + "." + str(k))
    elif t == "Cosmology":
        for n in world.COSMO_PARAMS + ["gamma"]:
            yield from _walk(getattr(o, n), path + "." + n)
    elif hasattr(o, "params") and hasattr(o, "config"):
        yield path, (t,)
        yield from _walk(o.params, path + ".params")
        yield from _walk(o.config, path + ".config")
        if hasattr(o, "gals_per_arcmin2"):
            yield from _walk(o.gals_per_arcmin2, path + ".gals")
    else:
        yield path, (t,)
