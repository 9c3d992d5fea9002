"""Obligations: 'this function, for all inputs satisfying the precondition, throws exactly
when ... and otherwise returns / leaves behind ...', decided by the value-flow analysis."""
import time
import traceback
import signal
from .values import *
from . import values as VV
from .interp import Interp, Mode, Dead, lift_struct
from . import interp as IN
from . import models as M
from . import contracts as CT
from .compare import Comparer, Diff, rotation_entries, D

ASSERT = "resim::AssertException"


class Timeout(Exception):
    pass


class Missing(Exception):
    """an anchor of the property is not present in the source"""


class Run:
    """one symbolic evaluation of one entry point"""

    def __init__(self, ctx, mode=None, contracts=None, tag=""):
        self.ctx = ctx
        if contracts is True:
            contracts = CT.contracts()
        self.I = Interp(ctx.prog, mode, contracts)
        self.tag = tag
        self.cmp = None

    # ---- symbolic inputs
    def name(self, n):
        return sym(self.tag + ":" + n)

    def obj(self, n, key):
        """symbolic object of record type `key`; pointer to it"""
        I = self.I
        v = self.symof(key, self.name(n))
        return ptr(I.alloc(v, n))

    def symof(self, key, base):
        I = self.I
        m = I.models.sym_record(I, [], {"k": "rec", "r": key, "s": key, "tpl": key.split("<")[0]}, base)
        if m is not None:
            return m
        return I.symrec(key, base)

    def param(self, f, i, n=None):
        """symbolic argument for parameter i of function f"""
        p = f["params"][i]
        d = f["_T"][p["t"]]
        I = self.I
        base = self.name(n or p["name"] or "p%d" % i)
        v = I.symval(f["_T"], p["t"] if d["k"] != "ptr" else d["p"], base)
        if d["k"] in ("lref", "rref", "ptr"):
            return ptr(I.alloc(v, n or p["name"] or "p"))
        return v

    def real(self, n):
        return atom(self.name(n))

    def integer(self, n):
        mark_int(self.name(n))
        return self.real(n)

    def ref(self, v, n="t"):
        return ptr(self.I.alloc(v, n))

    def val(self, p):
        return self.I.load(p) if self.I.is_ptr(p) else p

    # ---- calls
    def fn(self, q):
        return self.ctx.fn(q)

    def call(self, q, *args):
        f = self.fn(q) if isinstance(q, str) else q
        return self.I.call(f, None, list(args))

    def m(self, x, name, *args):
        """member call by name on the object x (pointer or value)"""
        if not self.I.is_ptr(x):
            x = self.ref(x)
        v = self.val(x)
        f = self.ctx.method(v.a[0], name, len(args))
        r = self.I.call(f, x, list(args))
        return self.val(r)

    def throws(self):
        return self.I.throws[0]

    def thrown(self):
        return b_any(t[0] for t in self.I.throws[0])


UB_KINDS = ("of an empty container", "index out of range", "invalid iterator", "null dereference", "empty optional")


class Ctx:
    def __init__(self, prog, pid, tier="quick"):
        self.prog = prog
        self.pid = pid
        self.tier = tier
        self.results = []
        self.cmp_stats = dict(comparisons=0, regions=0, equal_by_eval=0)
        self.visited = set()
        self.unmodelled = {}
        self.deadline = None
        self.only = None
        self.shard = None
        self.count = 0

    # ---- lookup
    def fn(self, q, pred=None):
        ks = self.prog.byq.get(q)
        if not ks:
            raise Missing(q)
        fs = [self.prog.functions[k] for k in ks]
        fs = [f for f in fs if ("body" in f or "inits" in f)] or fs
        if pred:
            fs = [f for f in fs if pred(f)]
        if not fs:
            raise Missing(q)
        return fs[0]

    def fns(self, q):
        return [self.prog.functions[k] for k in self.prog.byq.get(q, ()) if "body" in self.prog.functions[k] or "inits" in self.prog.functions[k]]

    def method(self, cls, name, nargs):
        seen = []

        def search(c):
            r = self.prog.records.get(c)
            if r is None:
                return None
            for m in r.get("methods", ()):
                f = self.prog.functions.get(m["key"])
                if f and f["name"] == name and len(f["params"]) == nargs:
                    return f
            for b in r.get("bases", ()):
                f = search(b["r"])
                if f:
                    return f
            return None
        f = search(cls)
        if f is None:
            raise Missing("%s::%s" % (cls, name))
        return f

    # ---- obligations
    def check(self, name, body, anchor=None, timeout=None):
        """body(): yields/returns list of (label, Diff-or-str) problems; registers the result.
        anchor: function dict or 'file:line'"""
        if self.only and not any(o in name for o in self.only):
            return
        self.count += 1
        if self.shard and self.count % self.shard[1] != self.shard[0]:
            return
        t0 = time.time()
        r = dict(obligation=name, status="holds", detail=[], ordinal=self.count)

        def alarm(*_):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(timeout or (150 if self.tier == "quick" else 400))
        try:
            if isinstance(anchor, str):
                anchor = self.fn(anchor)
            if anchor:
                r["where"] = "%s:%s" % (anchor["file"], anchor["line"])
                r["function"] = anchor["q"]
            probs = body() or []
            for lab, d in probs:
                if isinstance(d, Diff) and d.kind == "unknown":
                    if r["status"] == "holds":
                        r["status"] = "undecided"
                    r["detail"].append("%s: %s" % (lab, str(d)[:1500]))
                elif isinstance(d, tuple) and d[0] == "undecided":
                    if r["status"] == "holds":
                        r["status"] = "undecided"
                    r["detail"].append("%s: %s" % (lab, d[1]))
                else:
                    r["status"] = "violated"
                    r["detail"].insert(0, "%s: %s" % (lab, str(d)[:3000]))
        except Missing as ex:
            r["status"] = "undecided"
            r["detail"].append("anchor not found: %s" % ex)
            r["missing"] = str(ex)
        except Timeout:
            r["status"] = "undecided"
            r["detail"].append("time limit of this obligation")
        except TooBig:
            r["status"] = "undecided"
            r["detail"].append("expression too large")
        except RecursionError:
            r["status"] = "undecided"
            r["detail"].append("expression too deep")
        except Exception as ex:  # the analyser met a construct it does not handle
            r["status"] = "undecided"
            r["detail"].append("analyser: %r %s" % (ex, traceback.format_exc(limit=-3)[-600:]))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        r["wall_s"] = round(time.time() - t0, 2)
        self.results.append(r)
        return r

    def rejected(self, name, common, bad, good, anchor=None):
        """compile-fail witness: common+bad must not compile, while common+good (the same shape, but allowed) must"""
        def body():
            from .frontend import compiles
            ok, err = compiles(common + good)
            if not ok:
                return [("witness", ("undecided", "the accepted variant does not compile: " + err))]
            ok, err = compiles(common + bad)
            return [("compile-fail witness", "compiles, but must be rejected: " + bad.strip())] if ok else []
        return self.check(name, body, anchor)

    def function(self, name, q, spec, mode=None, contracts=None, args=None, timeout=None, pick=None, ub=UB_KINDS, atomic=None):
        """obligation on one (probe or repository) function.
        spec(R, *argvals) -> (throw_condition or None, post or None[, care])
          post(R, ret) -> list of (label, actual, expected[, extra care])
        atomic(R, *argvals) -> list of (label, value) that a failing call must leave as they were"""
        def body():
            f = self.fn(q, pick) if isinstance(q, str) else q
            R = Run(self, mode, contracts, tag=name)
            av = args(R, f) if args else [R.param(f, i) for i in range(len(f["params"]))]
            sp = spec(R, *av)
            care = TRUE
            if len(sp) == 3:
                thr, post, care = sp
            else:
                thr, post = sp
            if care is FALSE:
                raise RuntimeError("vacuous precondition")
            return self.run_compare(R, f, None, av, thr, post, care, ub, atomic)
        f0 = None
        try:
            f0 = self.fn(q, pick) if isinstance(q, str) else q
        except Missing:
            pass
        return self.check(name, body, f0, timeout)

    def run_compare(self, R, f, this, av, thr, post, care, ub=(), atomic=None):
        C = R.cmp or Comparer()
        I = R.I
        out = []
        before = atomic(R, *av) if atomic else ()
        I.throws[0][:] = []
        I.st.pc = TRUE
        I.ub[:] = []
        try:
            ret = I.construct(f, av) if f.get("ctor") else I.call(f, this, av)
            dead = FALSE
        except Dead:
            ret = None
            dead = TRUE
        got = R.thrown()
        if thr is not None:
            out += [("throw condition", d) for d in C.diff(got, thr, care)]
            for pc, exc, _s in R.throws():
                if exc.tag == "t" and exc.a[0] == "exc" and exc.a[1].tag == "str" and exc.a[1].a not in (ASSERT,):
                    pass
        if atomic:
            failed, st = list(I.throws[0]), I.st.clone()
            for pc, exc, store in failed:
                I.st.store, I.st.pc = dict(store), pc
                after = atomic(R, *av)
                for (lab, b), (_, a) in zip(before, after):
                    out += [("after a failure, " + lab, d) for d in C.diff(a, b, b_and(care, pc))]
            I.throws[0][:] = failed
            I.st = st
        for pc, kind, loc in list(I.ub):
            if any(kind.endswith(k) for k in ub):
                out += [("%s at %s" % (kind, loc), d) for d in C.diff(pc, FALSE, care)]
        if post is not None and ret is not None:
            n_throws = len(I.throws[0])
            norm = b_and(care, b_not(got))
            if thr is not None:
                norm = b_and(norm, b_not(thr))
            I.st.pc = b_and(I.st.pc, TRUE)
            if norm is not FALSE:
                for item in post(R, ret):
                    lab, act, exp = item[:3]
                    ex = b_and(norm, item[3]) if len(item) > 3 else norm
                    out += [(lab, d) for d in C.diff(act, exp, ex)]
        if I.lost and out:
            out = [(lab, ("undecided", I.lost[0])) for lab, d in out]
        self.cmp_stats["comparisons"] += C.cmps
        self.cmp_stats["regions"] += C.cubes
        self.cmp_stats["equal_by_eval"] += C.equal_by_eval
        self.cmp_stats["infeasible"] = self.cmp_stats.get("infeasible", 0) + len(C.infeasible)
        self.cmp_stats["infeasible_proved"] = self.cmp_stats.get("infeasible_proved", 0) + C.proved
        self.infeasible = getattr(self, "infeasible", []) + C.infeasible
        self.visited |= I.visited
        for u, loc in I.unsupported:
            self.unmodelled["%s @%s" % (u, loc)] = self.unmodelled.get("%s @%s" % (u, loc), 0) + 1
        return out
