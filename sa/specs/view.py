"""Viewing: what is recorded, what is sent, and under which lock."""
from ..values import *
from ..spec import *
from ..interp import UNLOCKED, seq_push
from .. import models as M
from .frames import P

NS = "resim::visualization::"
VIEW = NS + "View"
LOCK_UB = UB_KINDS + ("use after lifetime", "without its mutex", "mutex already held", "mutex not held")
WORLD = ptr("world")


# ---------------------------------------------------------------- the outside world: what was sent, and what it answered
def world(R):
    R.I.st.store["world"] = rec("world", {"sends": ZERO, "sent": seq([])})


def c_send(I, node, this, args):
    """a client: takes the update, and answers with a status of its own choice"""
    u = I.load(args[0], node) if I.is_ptr(args[0]) else args[0]
    w = I.load(WORLD)
    n = rec_get(w, "sends")
    I.store(WORLD, rec("world", {"sends": add(n, ONE), "sent": rec_get(u, "primitives")}))
    return lift(lambda k: I.symrec("resim::Status", T("answer", k)), n)


KINDS = ("se3", "so3", "frame", "fvec", "dcurve", "tcurve", "trajectory")


def view_mode(ctx):
    """the members of View by their role (a mutex, the owned client, the recorded primitives)"""
    r = ctx.prog.records.get(VIEW)
    role = dict(mutex=[], client=[], prims=[])
    for fl in (r["fields"] if r else ()):
        s = r["_T"][fl["t"]]["s"]
        role["mutex" if "mutex" in s else "prims" if "ViewPrimitive" in s else "client" if "ViewClient" in s else "mutex"].append(fl["name"])
    return Mode(lifetimes=True, guarded=(tuple(role["client"] + role["prims"]), VIEW), mutexes=tuple(role["mutex"])), role


def fieldp(p, n):
    return ptr(p.a[0], p.a[1] + (("f", n),))


def run(ctx):
    mode, role = view_mode(ctx)
    mutexes = role["mutex"]
    CT_ = {NS + "ViewClientInterface::send_view_update": c_send}

    def free(R, v):
        for m in mutexes:
            R.I.store(fieldp(v, m), UNLOCKED)

    def f(name, q, spec, args=None, **kw):
        def build(R, fn):
            if len(role["client"]) != 1 or len(role["prims"]) != 1:
                raise Missing("the members of View")
            world(R)
            av = args(R, fn) if args else [R.param(fn, i) for i in range(len(fn["params"]))]
            for a in av:
                if R.I.is_ptr(a) and R.val(a).tag == "rec" and R.val(a).a[0] == VIEW:
                    free(R, a)
            return av
        ctx.function(name, P + q, spec, mode=mode, contracts=CT_, ub=LOCK_UB, args=build, **kw)

    null = lambda R, v: rec_get(rec_get(R.val(v), role["client"][0]), "null")
    prims = lambda R, v: rec_get(R.val(v), role["prims"][0])
    good = lambda R, k=0: R.val(R.call(P + "st_ok", R.ref(R.I.symrec("resim::Status", T("answer", num(k))))))
    sends = lambda R: rec_get(R.I.load(WORLD), "sends")
    sent = lambda R: rec_get(R.I.load(WORLD), "sent")
    free_again = lambda R, v: [("mutex free again", rec_get(R.val(v), m), UNLOCKED) for m in mutexes]
    after = lambda R, v, n, what: [("updates sent", sends(R), num(n)), ("what was sent", sent(R), what),
                                   ("nothing left to send", prims(R, v), seq([]))] + free_again(R, v)

    def flush(R, v):
        p0 = prims(R, v)
        return b_or(null(R, v), b_not(good(R))), lambda R, r: after(R, v, 1, p0)
    f("flushing sends everything recorded, once, and fails exactly without a client or when the client fails", "v_flush", flush)

    def caught(R, v):
        bad = b_or(null(R, v), b_not(good(R)))
        return FALSE, lambda R, r: [("failed", R.val(r), bad)] + free_again(R, v)
    f("a failed flush gives the mutex back", "v_flush_caught", caught)
    f("replacing the client drops what was recorded for the old one", "v_set_client", lambda R, v, c: (
        FALSE, lambda R, r, c0=R.val(c): [("recorded", prims(R, v), seq([])), ("updates sent", sends(R), ZERO),
                                         ("client null iff the new one is", null(R, v), rec_get(c0, "null"))] + free_again(R, v)))
    f("there is one view", "v_instance", lambda R: (FALSE, lambda R, r: [("same", R.val(r), TRUE)]))

    def prim(R, base, ob, name, file, line):
        """the recorded primitives, with one more at the end; its identifier was drawn for it"""
        got = sent(R)
        parts = [q for q in got.a] if got.tag == "seq" else []
        i = UNDEF
        if parts and parts[-1][0] == "one" and parts[-1][2].tag == "rec":
            i = rec_get(parts[-1][2], "id")
            if "fresh-uuid" not in str(i):
                i = UNDEF
        r = R.call(P + "v_primitive_" + ob[0], R.ref(i), ob[1], R.ref(name), R.ref(file), line)
        return seq_push(base, r)

    for k in KINDS:
        def show(R, v, x, k=k):
            p0 = prims(R, v)
            none = R.call(P + "v_no_name")
            return b_or(null(R, v), b_not(good(R))), lambda R, r: after(
                R, v, 1, prim(R, p0, (k, x), none, strc("Unknown file"), ZERO))
        f("streaming a %s into a view records it once and sends it" % k, "v_show_" + k, show)

        def vo(R, x):
            o = R.val(x)
            return R.ref(rec_get(o, "the_object")), rec_get(o, "user_defined_name"), rec_get(o, "file_name"), rec_get(o, "line_number")

        def obj(R, v, x, k=k):
            p0 = prims(R, v)
            ob, name, file, line = vo(R, x)
            return b_or(null(R, v), b_not(good(R))), lambda R, r: after(R, v, 1, prim(R, p0, (k, ob), name, file, line))
        f("viewing a %s records object, name and place once and sends it" % k, "v_object_" + k, obj)

        def made(R, x, line, file, k=k):
            def post(R, r):
                ob, name, fl, ln = vo(R, R.ref(r))
                return [("object", R.val(ob), R.val(x)), ("name", name, R.call(P + "v_no_name")), ("file", R.val(fl), R.val(file)), ("line", ln, line),
                        ("updates sent", sends(R), ZERO)]
            return FALSE, post
        f("a %s that is not named yet is not sent" % k, "v_unnamed_" + k, made)

        def one(R):
            """the view shared by the whole program"""
            v = R.call(VIEW + "::get_instance")
            free(R, v)
            return v

        def named(R, x, name, line, file, k=k):
            v = one(R)
            p0 = prims(R, v)
            nm = R.call(P + "v_name", name)

            def post(R, r):
                ob, n, fl, ln = vo(R, R.ref(r))
                return after(R, v, 1, prim(R, p0, (k, x), nm, R.val(file), line)) + [
                    ("object", R.val(ob), R.val(x)), ("name", n, nm), ("file", R.val(fl), R.val(file)), ("line", ln, line)]
            return b_or(null(R, v), b_not(good(R))), post
        f("a %s with a name is sent at once, with name and place" % k, "v_named_" + k, named)

        def stream(R, x, name, k=k):
            v = one(R)
            p0 = prims(R, v)
            nm = R.call(P + "v_name", name)
            ob, _, fl, ln = vo(R, x)
            return b_or(null(R, v), b_not(good(R))), lambda R, r: after(R, v, 1, prim(R, p0, (k, ob), nm, fl, ln))
        f("streaming a name into a %s sends it once, under that name" % k, "v_stream_" + k, stream)

    def line(R, x, ln, fl):
        def post(R, r):
            v = R.val(r)
            return [("line", rec_get(v, "line_number"), R.val(ln)), ("file", rec_get(v, "file_name"), R.val(fl)),
                    ("object", rec_get(v, "the_object"), R.val(x)), ("updates sent", sends(R), ZERO)]
        return FALSE, post
    f("VIEW(x) tells where it was written", "v_macro_line", line)

    def macro(R, x, name, ln, fl):
        v = one(R)
        p0 = prims(R, v)
        nm = R.call(P + "v_name", name)
        return b_or(null(R, v), b_not(good(R))), lambda R, r: after(R, v, 1, prim(R, p0, ("se3", x), nm, R.val(fl), R.val(ln)))
    f("VIEW(x, name) sends x once, under that name and place", "v_macro_named", macro)
    f("VIEW(x) << name sends x once, under that name and place", "v_macro_streamed", macro)
