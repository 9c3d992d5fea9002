"""Checked integers, time conversions, sampling and event scheduling."""
from fractions import Fraction
from ..values import *
from ..spec import *
from .. import models as M
from .frames import P

MIN, MAX = num(-2 ** 63), num(2 ** 63 - 1)
NS = num(10 ** 9)
OV = dict(mode=Mode(overflow=True), ub=UB_KINDS + ("signed overflow", "conversion out of range"))


def i64(*xs):
    return b_all(b_and(c_ge(x, MIN, True), c_le(x, MAX, True)) for x in xs)


def nabs(x, isint=True):
    return ite(c_ge(x, ZERO, isint), x, sub(ZERO, x))


def ints(R, f):
    return [R.integer(p["name"]) for p in f["params"]]


def run_ints(ctx):
    def f(name, q, exact):
        def spec(R, *a):
            e = exact(*a)
            return b_not(i64(e)), lambda R, r: [("result", R.val(r), e)], i64(*a)
        ctx.function(name, P + q, spec, args=ints, **OV)
    f("safe_sum", "i_sum", add)
    f("safe_difference", "i_diff", sub)
    f("safe_abs", "i_abs", nabs)


def run_time(ctx):
    def f(name, q, spec, **kw):
        k = dict(OV)
        k.update(kw)
        ctx.function(name, P + q, spec, **k)
    f("as_seconds", "t_as_seconds", lambda R, d: (FALSE, lambda R, r: [("seconds", R.val(r), div(d, NS))], i64(d)), args=ints)
    big = num(2 ** 63)

    def dur(R, t):
        n = mul(t, NS)

        def post(R, r):
            r = R.val(r)
            return [("within one nanosecond", b_and(c_gt(sub(r, n), num(-1)), c_lt(sub(r, n), ONE)), TRUE),
                    ("never longer than asked", c_le(nabs(r), nabs(n, False)), TRUE)]
        return FALSE, post, b_and(c_lt(n, big), c_gt(n, sub(ZERO, big)))
    f("as_duration", "t_as_duration", dur)

    def parts(R, d):
        s, n = R.val(R.call(P + "t_secs", d)), R.val(R.call(P + "t_nanos", d))
        return FALSE, lambda R, r: [("duration", R.val(r), d)], i64(d)
    f("seconds and nanoseconds restore the duration", "t_trip", lambda R, d: (FALSE, lambda R, r: [("duration", R.val(r), d)], i64(d)), args=ints)
    f("duration of seconds and nanoseconds", "t_from", lambda R, s, n: (
        FALSE, lambda R, r: [("duration", R.val(r), add(mul(s, NS), n))],
        b_and(i64(s, n, add(mul(s, NS), n)), i64(mul(s, NS)))), args=ints)

    def secs(R, d):
        def post(R, r):
            s = R.val(r)
            n = R.val(R.call(P + "t_nanos", d))
            return [("seconds and nanoseconds add up", add(mul(s, NS), n), d),
                    ("nanoseconds stay below a second", b_and(c_lt(n, NS, True), c_gt(n, sub(ZERO, NS), True)), TRUE),
                    ("signs agree", b_and(b_or(c_le(d, ZERO, True), b_and(c_ge(s, ZERO, True), c_ge(n, ZERO, True))),
                                          b_or(c_ge(d, ZERO, True), b_and(c_le(s, ZERO, True), c_le(n, ZERO, True)))), TRUE)]
        return FALSE, post, i64(d)
    f("seconds and nanoseconds of a duration", "t_secs", secs, args=ints)


def run_sample(ctx):
    def f(name, q, spec, **kw):
        k = dict(OV)
        k.update(kw)
        ctx.function(name, P + q, spec, **k)

    def nd(R, a, b, dt):
        q = div(nabs(sub(b, a), False), dt)
        care = b_or(c_le(dt, ZERO), c_lt(q, num(2 ** 62)))
        return c_le(dt, ZERO), lambda R, r: [("number of samples", R.val(r), add(ONE, fun("ceil", q)))], care
    f("number of samples (seconds)", "s_num_d", nd)
    for side, lo, hi, extra in (("just above", 0, Fraction(1, 2 ** 45), 2), ("just below", -Fraction(1, 2 ** 45), 0, 1)):
        for sgn in (1, -1):
            def near(R, a, b, dt):
                k, e = R.integer("k"), R.real("e")
                care = b_all([c_gt(dt, ZERO), c_ge(k, ONE, True), c_lt(k, num(2 ** 30), True), c_gt(e, num(lo)), c_lt(e, num(hi))])
                return FALSE, lambda R, r: [("number of samples", R.val(r), add(k, num(extra)))], care
            f("%s a multiple of the maximum step (seconds, %s)" % (side, "forward" if sgn > 0 else "backward"), "s_num_d", near,
              args=lambda R, fn: [R.real("a"), add(R.real("a"), mul(num(sgn), mul(R.real("dt"), add(R.integer("k"), R.real("e"))))), R.real("dt")])

    def nt(R, a, b, dt):
        def post(R, r):
            n = R.val(r)
            w = nabs(sub(b, a))
            return [("steps of at most the maximum", c_ge(mul(sub(n, ONE), dt), w, True), TRUE),
                    ("no fewer samples would do", b_or(c_le(n, ONE, True), c_lt(mul(sub(n, num(2)), dt), w, True)), TRUE),
                    ("at least one sample", c_ge(n, ONE, True), TRUE)]
        w = nabs(sub(b, a))
        return c_le(dt, ZERO, True), post, b_and(i64(a, b, dt), c_lt(w, num(2 ** 62), True))
    f("number of samples (timestamps)", "s_num_t", nt, args=ints)

    def count(N, a, b, dt):
        """num_samples(a, b, dt) is N + 1 (its own obligations above say what that means)"""
        def c(I, node, this, args):
            x, y, d = [I.load(v) if I.is_ptr(v) else v for v in args]
            C = Comparer()
            same = not C.diff(mul(sub(y, x), sub(y, x)), mul(sub(b, a), sub(b, a))) and not C.diff(d, dt)
            return num(N + 1 if same else N + 2)
        k = {"resim::time::num_samples": c}

        def checked(op):
            def g(I, node, this, args):
                r = op(*[I.load(v) if I.is_ptr(v) else v for v in args])
                bad = b_not(i64(r))
                I.throw(T("exc", strc(ASSERT)), bad)
                I.assume(b_not(bad))
                return r
            return g
        k["resim::math::safe_sum"] = checked(add)
        k["resim::math::safe_difference"] = checked(sub)
        k["resim::math::safe_abs"] = checked(nabs)
        return k

    small = num(2 ** 60)
    for N in ((1, 2, 3, 4) if ctx.tier == "quick" else (1, 2, 3, 4, 5)):
        def sd(R, a, b, dt):
            R.I.contracts = count(N, a, b, dt)

            def post(R, r):
                s = R.val(r)
                return [("number of samples", IN.seq_size(s), num(N + 1))] + [
                    ("sample %d" % k, IN.seq_at(s, num(k)), add(a, mul(sub(b, a), num(Fraction(k, N))))) for k in range(N + 1)]
            return FALSE, post, b_and(b_not(c_eq(a, b)), c_gt(dt, ZERO))
        f("sampling an interval of seconds in %d steps" % N, "s_int_d", sd)

        def st(R, a, b, dt):
            R.cmp = Comparer(prune=True)
            R.I.contracts = count(N, a, b, dt)

            def post(R, r):
                s = R.val(r)
                out = [("number of samples", IN.seq_size(s), num(N + 1))]
                for k in range(N + 1):
                    t = IN.seq_at(s, num(k))
                    e = mul(num(2), sub(mul(num(N), sub(t, a)), mul(num(k), sub(b, a))))
                    out += [("sample %d is not late by more than half a nanosecond" % k, c_le(e, num(N), True), TRUE),
                            ("sample %d is not early by more than half a nanosecond" % k, c_ge(e, num(-N), True), TRUE)]
                return out
            return FALSE, post, b_all([b_not(c_eq(a, b, True)), c_gt(dt, ZERO, True), i64(a, b), c_lt(sub(b, a), small, True),
                                       c_gt(sub(b, a), sub(ZERO, small), True)])
        f("sampling an interval of timestamps in %d steps" % N, "s_int_t", st, args=ints)
    f("sampling an empty interval of seconds", "s_int_d", lambda R, a, b, dt: (
        FALSE, lambda R, r: [("samples", R.val(r), seq([("one", TRUE, a)]))]), args=lambda R, fn: [R.real("a")] * 2 + [R.real("dt")])
    f("sampling an empty interval of timestamps", "s_int_t", lambda R, a, b, dt: (
        FALSE, lambda R, r: [("samples", R.val(r), seq([("one", TRUE, a)]))], i64(a)), args=lambda R, fn: [R.integer("a")] * 2 + [R.integer("dt")])
    f("a maximum step that is not positive is rejected (seconds)", "s_int_d", lambda R, a, b, dt: (
        TRUE, None, b_and(b_not(c_eq(a, b)), c_le(dt, ZERO))))
    f("a maximum step that is not positive is rejected (timestamps)", "s_int_t", lambda R, a, b, dt: (
        TRUE, None, b_all([b_not(c_eq(a, b, True)), c_le(dt, ZERO, True), i64(a, b)])), args=ints)


def run_schedule(ctx):
    def before(t, i, j):
        """event i comes out before event j"""
        return c_le(t[i], t[j], True) if i < j else c_lt(t[i], t[j], True)

    def order(R, idx, t, k, what):
        """the k-th of the events idx to come out"""
        v = None
        for i in idx:
            rank = ZERO
            for j in idx:
                if j != i:
                    rank = add(rank, ite(before(t, j, i), ONE, ZERO))
            v = what[i] if v is None else ite(c_eq(rank, num(k), True), what[i], v)
        return v

    def f(name, q, sizes, expect):
        def spec(R, *a):
            R.cmp = Comparer(prune=True)
            t, p = a[:3], a[3:]

            def post(R, r):
                d = R.val(r)
                g = lambda n: rec_get(d, n)
                out = []
                for k, w in enumerate(expect(R, t)):
                    out += [("payload %d" % k, IN.seq_at(g("payloads"), num(k)), w(p)), ("time %d" % k, IN.seq_at(g("times"), num(k)), w(t))]
                for k, n in enumerate(sizes):
                    out.append(("size %d" % k, IN.seq_at(g("sizes"), num(k)), num(n)))
                return out
            return FALSE, post, i64(*t)
        ctx.function(name, P + q, spec, args=ints, **OV)
    f("three events come out by time, first scheduled first", "es_three", (3, 2, 1, 0),
      lambda R, t: [lambda w, k=k: order(R, (0, 1, 2), t, k, w) for k in range(3)])

    def mixed(R, t):
        b = before(t, 0, 1)
        return [lambda w: ite(b, w[0], w[1])] + [
            lambda w, k=k: ite(b, order(R, (1, 2), t, k, w), order(R, (0, 2), t, k, w)) for k in (0, 1)]
    f("events scheduled between taking others keep the order", "es_mixed", (2, 2, 1, 0), mixed)
    f("an emptied schedule keeps the order", "es_reused", (1, 2, 1, 0),
      lambda R, t: [lambda w: w[0]] + [lambda w, k=k: order(R, (1, 2), t, k, w) for k in (0, 1)])
    ctx.function("a new schedule is empty", P + "es_empty", lambda R: (FALSE, lambda R, r: [("size", R.val(r), ZERO)]))
    ctx.function("as many events as the counter can count", P + "es_fill", lambda R, t, p: (
        FALSE, lambda R, r: [("size", R.val(r), ONE)], i64(t)), args=ints, **OV)
    ctx.function("an exhausted counter fails", P + "es_overfill", lambda R, t, p: (TRUE, None, i64(t)), args=ints, **OV)
