"""Assertions, statuses, variants, references and identifiers."""
from ..values import *
from ..spec import *
from .. import models as M
from .frames import P

LT = dict(mode=Mode(lifetimes=True), ub=UB_KINDS + ("use after lifetime",))


def cat(*xs):
    r = strc("")
    for x in xs:
        r = M.strcat(r, strc(x) if isinstance(x, str) else M.to_text(x))
    return r


def fget(v, n):
    return rec_get(v, n)


def run_assert(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **dict(LT, **kw))
    f("an assertion fails exactly when its condition is false", "a_plain", lambda R, c: (b_not(c), None))
    f("an assertion with a message fails exactly when its condition is false", "a_message", lambda R, c, m: (b_not(c), None))

    def after(R, c, x):
        return b_not(c), lambda R, r: [("runs on", R.val(r), num(7)), ("effect", R.val(x), num(7))]
    f("execution continues exactly when the condition holds", "a_after", after)
    text = lambda cond, file, line, m: cat("<", file, ":", line, "> - ReAssertion failed: (", cond, "). Message: ", m)
    f("text of the exception", "a_what", lambda R, c, fl, l, m: (FALSE, lambda R, r: [("what", R.val(r), text(c, fl, l, m))]))

    def caught(plain):
        def spec(R, c, m=None):
            def post(R, r):
                v = R.val(r)
                return [("what", fget(v, "what"), text("cond", fget(v, "file"), fget(v, "line"), strc("") if plain else R.val(m)), b_not(c)),
                        ("nothing thrown", fget(v, "what"), strc(""), c)]
            return FALSE, post
        return spec
    f("the exception tells condition, place and message", "a_caught", caught(False))
    f("the exception tells condition and place", "a_caught_plain", caught(True))
    f("the condition is evaluated once", "a_once", lambda R, n: (None, lambda R, r, n0=R.val(n): [("evaluations", R.val(n), add(n0, num(2)))]))
    f("the whole condition is asserted", "a_either", lambda R, a, b: (b_not(b_or(a, b)), None))
    f("the whole conditional expression is asserted", "a_choice", lambda R, a, b, c: (b_not(b_or(b_and(a, b), b_and(b_not(a), c))), None))
    f("an assertion is one statement", "a_branch", lambda R, o, i, c: (b_and(b_and(o, i), b_not(c)), lambda R, r: [
        ("branch taken", R.val(r), ite(b_and(o, b_not(i)), ONE, num(2)))]))
    f("an assertion with a message is one statement", "a_branch_message", lambda R, o, c: (b_and(o, b_not(c)), lambda R, r: [
        ("branch taken", R.val(r), ite(o, num(2), ONE))]))
    f("the exception is a std::exception", "a_is_exception", lambda R, c: (FALSE, lambda R, r: [("caught", R.val(r), b_not(c))]))


def run_status(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **dict(LT, **kw))
    ok = lambda R, s: R.val(R.call(P + "st_ok", s))
    what = lambda R, s: R.val(R.call(P + "st_what", s))
    const_ = lambda name, q, v: f(name, q, lambda R: (FALSE, lambda R, r: [("value", R.val(r), v)]))
    f("a default status is good", "st_default", lambda R: (FALSE, lambda R, r: [("ok", ok(R, R.ref(r)), TRUE)]))
    const_("the okay status is good", "st_okay_constant", TRUE)
    const_("a made status is bad", "st_made_ok", FALSE)

    def make(R, fl, l, m):
        return FALSE, lambda R, r: [("ok", ok(R, R.ref(r)), FALSE), ("what", what(R, R.ref(r)), cat("<", R.val(fl), ":", l, "> ", R.val(m)))]
    f("a made status is bad and tells file, line and message", "st_make", make)

    def made(R, m, line, file):
        return FALSE, lambda R, r: [("what", R.val(r), cat("<", R.val(file), ":", R.val(line), "> ", R.val(m)))]
    f("MAKE_STATUS tells where it was written", "st_made", made)
    f("a good status says so", "st_what", lambda R, s: (FALSE, lambda R, r: [("what", R.val(r), strc("OKAY"), ok(R, s))]))
    f("CHECK_STATUS_OK fails exactly for bad statuses", "st_check", lambda R, s: (b_not(ok(R, s)), None))

    def tells(R, s):
        def post(R, r):
            w = fget(R.val(r), "what")
            return [("carries the text of the status", contains(w, what(R, s)), TRUE, b_not(ok(R, s))),
                    ("nothing thrown", w, strc(""), ok(R, s))]
        return FALSE, post
    f("CHECK_STATUS_OK carries the text of the status", "st_check_caught", tells)

    def ret(R, s, after):
        a0 = R.val(after)

        def post(R, r):
            r = R.ref(r)
            return [("good iff the status is", ok(R, r), ok(R, s)), ("returned status", what(R, r), what(R, s)),
                    ("runs on iff good", R.val(after), ite(ok(R, s), ONE, a0))]
        return FALSE, post
    f("RETURN_IF_NOT_OK returns the bad status or runs on", "st_return", ret)
    once = lambda R, s: (FALSE, lambda R, r: [("evaluations", R.val(r), ONE)])
    f("RETURN_IF_NOT_OK evaluates its argument once", "st_return_calls", once)
    f("CHECK_STATUS_OK evaluates its argument once", "st_check_calls", lambda R, s: (
        b_not(ok(R, s)), lambda R, r: [("evaluations", R.val(r), ONE)]))

    vok = lambda R, v: R.val(R.call(P + "sv_ok", v))
    vget = lambda R, v: R.val(R.call(P + "sv_get", v))
    vst = lambda R, v: R.ref(R.call(P + "sv_get_status", v))
    f("a default status value is bad", "sv_default", lambda R: (FALSE, lambda R, r: [("ok", vok(R, R.ref(r)), FALSE), ("status", ok(R, vst(R, R.ref(r))), FALSE)]))
    f("a status value holds the value it was built from", "sv_value", lambda R, x: (FALSE, lambda R, r: [
        ("ok", vok(R, R.ref(r)), TRUE), ("value", vget(R, R.ref(r)), x), ("status", ok(R, vst(R, R.ref(r))), TRUE)]))

    def from_status(R, s):
        return ok(R, s), lambda R, r: [("ok", vok(R, R.ref(r)), FALSE), ("status", what(R, vst(R, R.ref(r))), what(R, s))]
    f("a status value holds the bad status it was built from, and rejects a good one", "sv_status", from_status)
    f("a bad status converts to a status value", "sv_status_implicit", from_status)

    def cases(name, q, spec, extra=()):
        """spec for a status value holding a value and for one holding a bad status"""
        def a_val(R, fn):
            return [R.ref(R.call(P + "sv_value", R.integer("held")))] + [R.param(fn, i) for i in range(1, len(fn["params"]))]

        def a_bad(R, fn):
            bad = R.ref(R.call(P + "st_make", R.param(ctx.fn(P + "st_make"), 0), R.integer("line"), R.param(ctx.fn(P + "st_make"), 2)))
            return [R.ref(R.call(P + "sv_status", bad))] + [R.param(fn, i) for i in range(1, len(fn["params"]))]
        f(name + " (holding a value)", q, lambda R, v, *a: spec(R, v, TRUE, *a), args=a_val)
        f(name + " (holding a bad status)", q, lambda R, v, *a: spec(R, v, FALSE, *a), args=a_bad)
    held = lambda R: R.integer("held")
    cases("ok tells whether there is a value", "sv_ok", lambda R, v, g: (FALSE, lambda R, r: [("ok", R.val(r), g)]))
    cases("the value is returned or access fails", "sv_get", lambda R, v, g: (b_not(g), lambda R, r: [("value", R.val(r), held(R))]))
    cases("the value is moved out or access fails", "sv_get_move", lambda R, v, g: (b_not(g), lambda R, r: [("value", R.val(r), held(R))]))
    cases("the status is good exactly with a value", "sv_get_status", lambda R, v, g: (FALSE, lambda R, r: [("ok", ok(R, R.ref(r)), g)]))

    def assign(R, v, g, after):
        a0 = R.val(after)

        def post(R, r):
            r = R.ref(r)
            return [("good iff the argument is", vok(R, r), g), ("runs on with the value iff good", R.val(after), ite(g, held(R), a0)),
                    ("returned status", what(R, vst(R, r)), what(R, vst(R, v)))]
        return FALSE, post
    cases("RETURN_OR_ASSIGN yields the value or returns the bad status", "sv_assign", assign)
    cases("RETURN_OR_ASSIGN evaluates its argument once", "sv_assign_calls", lambda R, v, g: (FALSE, lambda R, r: [("evaluations", R.val(r), ONE)]))

    def tmp(R, good, x, s, after):
        a0, x0 = R.val(after), R.val(x)
        return b_and(b_not(good), ok(R, s)), lambda R, r: [("runs on with the value iff good", R.val(after), ite(good, x0, a0))]
    f("RETURN_OR_ASSIGN uses a temporary while it lives", "sv_assign_temporary", tmp)
    f("RETURN_OR_ASSIGN uses a temporary while it lives (initialising a variable)", "sv_assign_temporary_local", tmp)
    same = lambda R, x: (FALSE, lambda R, r: [("same object", R.val(r), TRUE)])
    f("a status value of a reference refers to the object given", "svr_same", same)
    f("writing through a status value of a reference", "svr_write", lambda R, x, y: (FALSE, lambda R, r: [("written", R.val(r), y), ("object", R.val(x), y)]))
    f("RETURN_OR_ASSIGN keeps references", "svr_assign_same", lambda R, x, y: (FALSE, lambda R, r: [("written", R.val(r), y), ("object", R.val(x), y)]))


    f("a status value of a reference refers to the object given (moved out)", "svr_same_move", same)
    f("a copy of a status value of a reference refers to the same object", "svr_copy_same", same)
    f("a status value of a reference is good", "svr_ok", same)
    f("a status value of a constant refers to the object given", "svc_same", same)
    f("a status value of a constant refers to the object given (moved out)", "svc_same_move", same)
    f("a status value of a reference built from a bad status is bad", "svr_bad_ok", lambda R, s: (ok(R, s), lambda R, r: [("ok", R.val(r), FALSE)]))
    for q, n in (("svr", "a reference"), ("svc", "a constant"), ("svs", "a string")):
        for h, m in (("get", ""), ("move", " (moved out)")):
            f("access to a bad status value of %s fails%s" % (n, m), "%s_bad_%s" % (q, h), lambda R, s: (TRUE, None))
    for q in ("svs_get", "svs_get_move"):
        f("a status value of a string holds it (%s)" % q[4:], q, lambda R, x: (FALSE, lambda R, r, x0=R.val(x): [("value", R.val(r), x0), ("argument unchanged", R.val(x), x0)]))
    sbad = lambda R: R.ref(R.call(P + "st_make", R.param(ctx.fn(P + "st_make"), 0), R.integer("line"), R.param(ctx.fn(P + "st_make"), 2)))

    def whole(R, v, good, x, s):
        """what the status value v shows is the value x, or the status s"""
        o = [("ok", R.val(R.call(P + "svs_ok", v)), TRUE if good else FALSE)]
        return o + ([("value", R.val(R.call(P + "svs_value", v)), R.val(x))] if good else
                    [("status", what(R, R.ref(R.call(P + "svs_status", v))), what(R, s))])

    def one(R, good, t):
        x, s = R.param(ctx.fn(P + "svs_of"), 0), sbad(R)
        return R.ref(R.call(P + ("svs_of" if good else "svs_bad"), x if good else s)), x, s
    for g in (True, False):
        def copied(R, v):
            return FALSE, lambda R, r: whole(R, R.ref(r), g, R.parts[1], R.parts[2]) + whole(R, v, g, R.parts[1], R.parts[2])

        def a1(R, fn):
            R.parts = one(R, g, "x")
            return [R.parts[0]]
        f("copying a status value (%s)" % ("good" if g else "bad"), "svs_copy", copied, args=a1)
        for h in (True, False):
            def a2(R, fn):
                R.parts = one(R, g, "x")
                return [one(R, h, "y")[0], R.parts[0]]
            f("assigning a %s status value to a %s one" % ("good" if g else "bad", "good" if h else "bad"), "svs_assign_to",
              lambda R, v, w: (FALSE, lambda R, r: whole(R, v, g, R.parts[1], R.parts[2])), args=a2)

    inc = '#include "resim/utils/status_value.hh"\nusing namespace resim;\n'
    ctx.rejected("a status value of a status is rejected", inc, "void f(const StatusValue<Status> &x) { (void)x.ok(); }\n",
                 "void f(const StatusValue<int> &x) { (void)x.ok(); }\n", P + "sv_ok")
    ctx.rejected("a status value of a reference to a status is rejected", inc, "void f(const StatusValue<const Status &> &x) { (void)x.ok(); }\n",
                 "void f(const StatusValue<const int &> &x) { (void)x.ok(); }\n", P + "sv_ok")
    ctx.rejected("the value of a status value cannot be changed in place", inc, "void f(StatusValue<int> &x) { x.value() = 3; }\n",
                 "void f(StatusValue<int> &x) { (void)(x.value() == 3); }\n", P + "sv_get")


def contains(w, x):
    """the string w contains the string x (decided on their parts)"""
    def leaf(a, b):
        def parts(z):
            if z.tag == "t" and z.a[0] == "strcat":
                return [q for y in z.a[1:] for q in parts(y)]
            if z.tag == "t" and z.a[0] == "styled":
                return parts(z.a[2])
            return [z]
        pa, pb = parts(a), parts(b)
        for i in range(len(pa) - len(pb) + 1):
            ok = True
            for k, y in enumerate(pb):
                z = pa[i + k]
                if z.tag == "str" and y.tag == "str":
                    if len(pb) == 1:
                        g = y.a in z.a
                    elif k == 0:
                        g = z.a.endswith(y.a)
                    elif k == len(pb) - 1:
                        g = z.a.startswith(y.a)
                    else:
                        g = z.a == y.a
                else:
                    g = z is y
                if not g:
                    ok = False
                    break
            if ok:
                return TRUE
        return FALSE
    return lift(leaf, w, x)


def run_match(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **dict(LT, **kw))
    made = dict(m_int=0, m_real=1, m_str=2)
    for mk, k in made.items():
        def args(R, fn, mk=mk):
            mf = ctx.fn(P + mk)
            x = R.param(mf, 0)
            R.made = R.val(x)
            return [R.ref(R.call(P + mk, x))] + [R.param(fn, i) for i in range(1, len(fn["params"]))]
        f("match runs the branch of the alternative held (%s)" % mk[2:], "m_which", lambda R, v: (
            FALSE, lambda R, r: [("branch", R.val(r), num(k))]), args=args)
        f("match passes the value held (%s)" % mk[2:], "m_value", lambda R, v: (
            FALSE, lambda R, r: [("value", R.val(r), R.made if k == 0 else ZERO)]), args=args)
        f("match keeps references (%s)" % mk[2:], "m_reference", lambda R, v, d: (
            FALSE, lambda R, r: [("default chosen", R.val(r), FALSE if k == 0 else TRUE)]), args=args)
        f("match lets the branch write to the value held (%s)" % mk[2:], "m_write", lambda R, v, x: (
            FALSE, lambda R, r: [("branch of the held alternative", R.val(R.call(P + "m_which", v)), num(k)),
                                 ("written", R.val(R.call(P + "m_value", v)), R.val(x) if k == 0 else ZERO)]), args=args)
        f("match hands on the value of a moved variant (%s)" % mk[2:], "m_moved", lambda R, v: (
            FALSE, lambda R, r: [("moved out", R.val(r), [strc("int"), strc("real"), R.made][k])]), args=lambda R, fn: [R.val(args(R, fn)[0])])
    for mk, k in (("m_plain_int", 0), ("m_plain_real", 1)):
        def args(R, fn, mk=mk):
            return [R.ref(R.call(P + mk, R.param(ctx.fn(P + mk), 0)))] + [R.param(fn, i) for i in range(1, len(fn["params"]))]
        f("match shows the branch the object held, not a copy (%s)" % mk[8:], "m_plain_same", lambda R, v: (
            FALSE, lambda R, r: [("same object", R.val(r), TRUE)]), args=args)
        f("match lets the branch write to the object held (%s)" % mk[8:], "m_plain_write", lambda R, v, x, y: (
            FALSE, lambda R, r: [("value", R.val(v), R.val(R.call(P + mk, x if k == 0 else y)))]), args=args)
    inc = ("#include <cstdint>\n#include <string>\n#include <variant>\n#include \"resim/utils/match.hh\"\n"
           "using V = std::variant<int64_t, double, std::string>;\n"
           "struct I { int operator()(const int64_t &) const { return 0; } };\n"
           "struct D { int operator()(const double &) const { return 0; } };\n"
           "struct S { int operator()(const std::string &) const { return 0; } };\n"
           "struct B { bool operator()(const double &) const { return false; } };\n"
           "struct A { int operator()(int) const { return 0; } };\n")
    use = lambda v, *b: "auto f(const %s &v) { return resim::match(v, %s); }\n" % (v, ", ".join(x + "{}" for x in b))
    good = use("V", "D", "I", "S")
    ctx.rejected("a variant with a branch missing is rejected", inc, use("V", "I", "D"), good)
    ctx.rejected("branches of different result types are rejected", inc, use("V", "I", "B", "S"), good)
    ctx.rejected("matching something that is not a variant is rejected", inc, use("int", "A"), use("std::variant<int>", "A"))


def run_refs(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **dict(LT, **kw))
    const_ = lambda name, q, v: f(name, q, lambda R: (FALSE, lambda R, r: [("value", R.val(r), v)]))
    true1 = lambda R, x: (FALSE, lambda R, r: [("value", R.val(r), TRUE)])
    f("InOut writes to its object", "r_inout_write", lambda R, x, y: (FALSE, lambda R, r: [("object", R.val(x), y)]))
    f("InOut refers to its object", "r_inout_same", true1)
    f("InOut gives access to members", "r_inout_member", lambda R, h, y: (FALSE, lambda R, r: [("member", rec_get(R.val(h), "member"), y)]))
    f("a nullable reference to an object has a value", "r_null_has", true1)
    f("a nullable reference to an object is true", "r_null_bool", true1)
    f("a nullable reference refers to its object", "r_null_same", true1)
    f("a nullable reference reads its object", "r_null_get", lambda R, x: (FALSE, lambda R, r: [("value", R.val(r), R.val(x))]))
    f("a nullable reference writes to its object", "r_null_write", lambda R, x, y: (FALSE, lambda R, r: [("object", R.val(x), y)]))
    f("a nullable reference gives access to members", "r_null_arrow", lambda R, h: (FALSE, lambda R, r: [("member", R.val(r), rec_get(R.val(h), "member"))]))
    const_("an empty nullable reference has no value", "r_null_empty", FALSE)
    const_("an empty nullable reference is false", "r_null_empty_bool", FALSE)
    const_("null_reference has no value", "r_null_constant", FALSE)
    f("dereferencing an empty nullable reference fails", "r_null_deref_empty", lambda R: (TRUE, None))
    f("member access through an empty nullable reference fails", "r_null_arrow_empty", lambda R: (TRUE, None))
    f("a nullable reference to a constant refers to it", "r_nullc_same", true1)
    f("a nullable reference to a constant has a value", "r_nullc_has", true1)
    f("a nullable reference to a constant gives access to members", "r_nullc_arrow", lambda R, h: (FALSE, lambda R, r: [("member", R.val(r), rec_get(R.val(h), "member"))]))
    const_("an empty nullable reference to a constant has no value", "r_nullc_empty", FALSE)
    for q in ("r_nullc_deref_empty", "r_nullc_arrow_empty", "r_null_pointer_empty", "r_nullc_pointer_empty", "r_null_constant_deref"):
        f("an empty nullable reference cannot be used (%s)" % q[2:], q, lambda R: (TRUE, None))
    f("a copy of a nullable reference refers to the same object", "r_null_copy_same", true1)
    f("an assigned nullable reference refers to the new object", "r_null_reseat", lambda R, x, y: (FALSE, lambda R, r: [("value", R.val(r), TRUE)]))
    f("-> of an InOut refers to its object", "r_inout_arrow_same", true1)
    for n, q in (("InOut cannot be built from a pointer", "w_inout_pointer"), ("InOut cannot be built implicitly", "w_inout_implicit"),
                 ("InOut cannot be built from a temporary or constant", "w_inout_const"), ("InOut cannot be empty", "w_inout_default"),
                 ("a nullable reference cannot be built implicitly", "w_null_implicit"),
                 ("a nullable reference cannot be built from a temporary or constant", "w_null_const"),
                 ("a constant nullable reference does not convert to a number", "w_null_number")):
        const_(n, q, FALSE)


def run_uuid(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **dict(LT, mode=Mode(lifetimes=True, uuid_bytes=True), **kw))
    isnull = lambda R, a: R.val(R.call(P + "u_null", a))
    ident = lambda R, a: R.val(R.call(P + "u_id", a))
    f("a default identifier is null", "u_default", lambda R: (FALSE, lambda R, r: [("null", isnull(R, R.ref(r)), TRUE)]))
    f("an identifier keeps its bytes", "u_raw", lambda R, x: (FALSE, lambda R, r: [("bytes", ident(R, R.ref(r)), x)]))
    f("text of an identifier", "u_text", lambda R, a: (FALSE, lambda R, r: [("text", R.val(r), M.uuid_text(ident(R, a)))]))
    f("text and back", "u_trip", lambda R, a: (FALSE, lambda R, r: [("bytes", ident(R, R.ref(r)), ident(R, a))]))
    f("parsing fails exactly for texts that are no identifier", "u_parse", lambda R, s: (
        M.uuid_invalid(R.val(s)), lambda R, r: [("bytes", ident(R, R.ref(r)), M.uuid_of(R.val(s)))]))
    raw = lambda t: seq([("one", TRUE, sym("%s%d" % (t, i))) for i in range(16)])

    def pair(R, fn):
        R.bytes_a, R.bytes_b = [sym("a%d" % i) for i in range(16)], [sym("b%d" % i) for i in range(16)]
        return [R.ref(R.call(P + "u_raw", raw(t))) for t in "ab"][:len(fn["params"])]

    def same(xs, ys):
        c = TRUE
        for x, y in zip(xs, ys):
            c = b_and(c, c_eq(x, y))
        return c
    f("equality is equality of all bytes", "u_eq", lambda R, a, b: (FALSE, lambda R, r: [("equal", R.val(r), same(R.bytes_a, R.bytes_b))]), args=pair)
    f("inequality is its opposite", "u_ne", lambda R, a, b: (FALSE, lambda R, r: [("different", R.val(r), b_not(same(R.bytes_a, R.bytes_b)))]), args=pair)
    f("exactly the identifier of zeros is null", "u_null", lambda R, a: (FALSE, lambda R, r: [("null", R.val(r), same(R.bytes_a, [ZERO] * 16))]), args=pair)
    f("new identifiers are freshly generated", "u_new", lambda R: (FALSE, lambda R, r: [
        ("fresh", TRUE if "fresh-uuid" in str(ident(R, R.ref(r))) else FALSE, TRUE)]))

    def hsh(R, a):
        def post(R, r):
            b = R.ref(R.call(P + "u_raw", ident(R, a)))
            return [("depends on the bytes alone", R.val(r), R.val(R.call(P + "u_hash", b)))]
        return FALSE, post
    f("equal identifiers have equal hashes", "u_hash", hsh)
