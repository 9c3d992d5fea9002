"""Protobuf converters: packing rejects null, overwrites completely, and unpacking restores the value."""
from ..values import *
from ..spec import *
from .. import models as M
from .. import contracts as CT
from . import curves as CU
from .curves import fr, inv_fr, frame, pose, parts, JL, JR
from .frames import SO3, SE3, P, nullf, nullframe


def cg():
    return dict(mode=Mode(abs_group=True, abs_vec=False), contracts=True)


def semi(v):
    """no transform in v has exactly one null frame"""
    c = TRUE
    if v.tag == "rec":
        if v.a[0] in (SE3, SO3):
            return b_iff(nullf(rec_get(v, "into_")), nullf(rec_get(v, "from_")))
        for _, x in v.a[1]:
            c = b_and(c, semi(x))
    return c


def frames_pair(R, framed):
    if framed:
        fa, fb = frame(R, "into"), frame(R, "from")
        return (fa, fb), b_not(b_or(nullf(fa), nullf(fb)))
    return (nullframe(R), nullframe(R)), TRUE


def tcurve(R, n, N, framed, tag="p"):
    """a time curve of N points with symbolic times and jets"""
    ff, care = frames_pair(R, framed)
    t = R.real(tag + "t0")
    c = R.ref(R.val(R.call(P + n + "_tc_default")))
    for i in range(N):
        p = CU.ctrl(R, n, "%s%d" % (tag, i), t, ff)
        R.call(P + n + "_tc_append", c, R.ref(p))
        h = R.real("%sh%d" % (tag, i))
        care = b_and(care, c_gt(h, ZERO))
        t = add(t, h)
    R.I.throws[0][:] = []
    R.I.st.pc = TRUE
    return c, care


def dcurve(R, N, framed, tag="p"):
    ff, care = frames_pair(R, framed)
    c = R.ref(R.val(R.call(P + "dc_default")))
    pts = [pose(R, "%s%d" % (tag, i), ff) for i in range(N)]
    for p in pts:
        R.call(P + "dc_append", c, R.ref(p))
    for i in range(N - 1):
        care = b_and(care, c_ge(CT.arclen_of(M.g_mul(M.g_inv(rec_get(pts[i], "g")), rec_get(pts[i + 1], "g"))), ZERO))
    R.I.throws[0][:] = []
    R.I.st.pc = TRUE
    return c, care


def traj(R, N, framed, tag="p"):
    c, care = tcurve(R, "se3", N, framed, tag)
    t = R.call(P + "traj_from_curve", R.val(c), R.integer(tag + "start"))
    return R.ref(R.val(t)), care


TYPES = [("uuid", "identifier"), ("frame", "frame"), ("fvec", "framed vector"), ("se3", "rigid transform"), ("so3", "rotation"),
         ("jl_se3", "left two-jet (SE3)"), ("jl_so3", "left two-jet (SO3)"), ("jr_se3", "right two-jet (SE3)"), ("jr_so3", "right two-jet (SO3)")]


def builders(ctx):
    """label, probe prefix, function R, tag -> (pointer to value, precondition)"""
    def plain(q):
        def b(R, tag):
            f = R.fn(P + "p_%s_trip" % q)
            x = R.param(f, 0, tag)
            return x, semi(R.val(x))
        return b
    out = [(lab, q, plain(q)) for q, lab in TYPES]
    Ns = (0, 1, 2) if ctx.tier == "quick" else (0, 1, 2, 3)
    for framed in (False, True):
        for N in Ns:
            if N == 0 and framed:
                continue
            F_ = "%s%d points" % ("framed, " if framed else "", N)
            for n in ("se3", "so3"):
                out.append(("time curve (%s) %s" % (n, F_), "tc_" + n, lambda R, tag, n=n, N=N, framed=framed: tcurve(R, n, N, framed, tag)))
            out.append(("distance curve, " + F_, "dc", lambda R, tag, N=N, framed=framed: dcurve(R, N, framed, tag)))
            out.append(("trajectory, " + F_, "traj", lambda R, tag, N=N, framed=framed: traj(R, N, framed, tag)))
    return out


VPK = [("se3", "se3"), ("so3", "so3"), ("dc", "dc"), ("tc", "tc_se3"), ("traj", "traj"), ("frame", "frame"), ("fvec", "fvec")]


def primitive(R, kind, named, tag):
    """a view primitive with the given payload kind, and what it must keep: dict of observations, precondition"""
    b = {"dc": lambda: dcurve(R, 2, True, tag), "tc": lambda: tcurve(R, "se3", 2, True, tag), "traj": lambda: traj(R, 2, True, tag)}
    if kind in b:
        x, care = b[kind]()
    else:
        f = R.fn(P + "vp_" + kind)
        x = R.param(f, 1, tag + "x")
        care = semi(R.val(x))
    mk = R.fn(P + ("vp_make_named" if named else "vp_make"))
    args = [R.param(mk, i, tag + mk["params"][i]["name"]) for i in range(len(mk["params"]))]
    p = R.ref(R.val(R.I.call(mk, None, args)))
    if named:
        nm = R.val(args[1])
        care = b_and(care, b_not(c_eq(nm, strc(""))))
    p = R.ref(R.val(R.call(P + "vp_" + kind, p, x)))
    return p, care


def observe(R, p, kind, named):
    out = [("identifier", R.val(R.call(P + "vp_id", p))), ("file", R.val(R.call(P + "vp_file", p))), ("line", R.val(R.call(P + "vp_line", p))),
           ("has a name", R.val(R.call(P + "vp_named", p))), ("kind of payload", R.val(R.call(P + "vp_has_" + kind, p)))]
    if named:
        out.append(("name", R.val(R.call(P + "vp_name", p))))
    out.append(("payload", R.val(R.call(P + "vp_get_" + kind, p))))
    return out


def same(a, b):
    return [(x[0], x[1], y[1]) for x, y in zip(a, b)]


def quiet(R, fn):
    """evaluate without recording failures (observations of well-formed values)"""
    n = len(R.I.throws[0])
    pc = R.I.st.pc
    v = fn()
    del R.I.throws[0][n:]
    R.I.st.pc = pc
    return v


def run_trip(ctx):
    def f(name, q, spec, **kw):
        k = cg()
        k.update(kw)
        ctx.function(name, P + q, spec, **k)
    for lab, q, b in builders(ctx):
        def trip(R, x):
            care = b(R, "in")[1]
            return FALSE, lambda R, r, e=R.val(x): [("unpacked value", R.val(r), e)], care
        f("%s survives packing and unpacking" % lab, "p_%s_trip" % q, trip, args=lambda R, fn: [b(R, "in")[0]])
    for m in ("m23", "m33", "v4"):
        f("matrix %s survives packing and unpacking" % m, m + "_trip", lambda R, a, o: (
            FALSE, lambda R, r, e=R.val(a): [("matrix", R.val(o), e)]))
    for kind, _ in VPK:
        for named in (False, True):
            def vtrip(R, p):
                p2, care = primitive(R, kind, named, "in")
                want = observe(R, p, kind, named)
                return FALSE, lambda R, r: quiet(R, lambda: same(observe(R, R.ref(R.val(r)), kind, named), want)), care
            f("view primitive holding %s%s survives packing and unpacking" % (kind, ", named" if named else ""), "p_vp_trip", vtrip,
              args=lambda R, fn: [primitive(R, kind, named, "in")[0]])
    for N in (0, 1, 2):
        def update(R):
            ps = [primitive(R, ("se3", "frame")[i % 2], i == 1, "in%d" % i) for i in range(N)]
            return R.ref(R.val(R.call(P + "vu_make", R.ref(seq([("one", TRUE, R.val(p)) for p, _ in ps]))))), b_all(c for _, c in ps)
        f("view update of %d primitives survives packing and unpacking" % N, "p_vu_trip", lambda R, u: (
            FALSE, lambda R, r, e=R.val(u): [("update", R.val(r), e)], update(R)[1]),
          args=lambda R, fn: [update(R)[0]])


def run_pack(ctx):
    def f(name, q, spec, **kw):
        k = cg()
        k.update(kw)
        ctx.function(name, P + q, spec, **k)
    seen = set()
    for lab, q, b in builders(ctx):
        if q not in seen:
            f("%s: packing into nothing fails" % lab, "p_%s_pack_null" % q, lambda R, x: (TRUE, None, b(R, "in")[1]),
              args=lambda R, fn: [b(R, "in")[0]])
        seen.add(q)

        def retrip(R, x, y):
            care = b_and(b(R, "old")[1], b(R, "in")[1])
            return FALSE, lambda R, r, e=R.val(y): [("unpacked value", R.val(r), e)], care
        f("%s: packing replaces what the message held" % lab, "p_%s_retrip" % q, retrip, args=lambda R, fn: [b(R, "old")[0], b(R, "in")[0]])

        def dirty(R, x, m):
            care = b(R, "in")[1]
            return FALSE, lambda R, r, e=R.val(x): [("unpacked value", R.val(R.call(P + "p_%s_unpack" % q, m)), e)], care
        f("%s: packing into any message" % lab, "p_%s_pack" % q, dirty, args=lambda R, fn: [b(R, "in")[0], R.param(fn, 1)])
        # the message itself is the one a fresh message would have become
        def exact(R, x, m):
            m2 = R.ref(R.val(R.call(P + "p_%s_fresh" % q)))
            R.call(P + "p_%s_pack" % q, R.ref(R.val(x)), m2)
            R.I.throws[0][:] = []
            R.I.st.pc = TRUE
            return FALSE, lambda R, r: [("message", R.val(m), R.val(m2))], b(R, "in")[1]
        f("%s: the old message leaves nothing behind" % lab, "p_%s_pack" % q, exact, args=lambda R, fn: [b(R, "in")[0], R.param(fn, 1)])
    curve = {"tc_se3": lambda R, N, fr_, tag: tcurve(R, "se3", N, fr_, tag), "tc_so3": lambda R, N, fr_, tag: tcurve(R, "so3", N, fr_, tag), "dc": dcurve, "traj": traj}
    for q, b in curve.items():
        for old, new in ((2, 0), (2, 1), (1, 0), (0, 1)):
            def resize(R, x, y):
                return FALSE, lambda R, r, e=R.val(y): [("unpacked value", R.val(r), e)], b_and(b(R, old, True, "old")[1], b(R, new, new > 0, "in")[1])
            f("%s: packing %d points replaces %d framed ones" % (q, new, old), "p_%s_retrip" % q, resize,
              args=lambda R, fn: [b(R, old, old > 0, "old")[0], b(R, new, new > 0, "in")[0]])
    for m in ("m23", "m33", "v4"):
        f("matrix %s: packing into nothing fails" % m, m + "_pack_null", lambda R, x: (TRUE, None))
        f("matrix %s: packing replaces what the field held" % m, m + "_retrip", lambda R, a, b, o: (
            FALSE, lambda R, r, e=R.val(b): [("matrix", R.val(o), e)]))
    for kind, _ in VPK:
        f("view primitive holding %s: packing into nothing fails" % kind, "p_vp_pack_null", lambda R, x: (TRUE, None, primitive(R, kind, False, "in")[1]),
          args=lambda R, fn: [primitive(R, kind, False, "in")[0]])
        for old, _ in VPK:
            def vre(R, a, p):
                care = b_and(primitive(R, old, True, "old")[1], primitive(R, kind, False, "in")[1])
                want = observe(R, p, kind, False)
                return FALSE, lambda R, r: quiet(R, lambda: same(observe(R, R.ref(R.val(r)), kind, False), want)), care
            f("view primitive holding %s: packing replaces a named one holding %s" % (kind, old), "p_vp_retrip", vre,
              args=lambda R, fn: [primitive(R, old, True, "old")[0], primitive(R, kind, False, "in")[0]])
    f("view update: packing into nothing fails", "p_vu_pack_null", lambda R, x: (TRUE, None),
      args=lambda R, fn: [R.ref(R.val(R.call(P + "vu_make", R.ref(seq([])))))])

    def upd(R, kinds, tag):
        ps = [primitive(R, k, False, "%s%d" % (tag, i)) for i, k in enumerate(kinds)]
        return R.ref(R.val(R.call(P + "vu_make", R.ref(seq([("one", TRUE, R.val(p)) for p, _ in ps]))))), b_all(c for _, c in ps)
    f("view update: packing replaces the primitives the message held", "p_vu_retrip", lambda R, a, u: (
        FALSE, lambda R, r, e=R.val(u): [("update", R.val(r), e)], b_and(upd(R, ["se3", "so3"], "old")[1], upd(R, ["frame"], "in")[1])),
      args=lambda R, fn: [upd(R, ["se3", "so3"], "old")[0], upd(R, ["frame"], "in")[0]])


def run_content(ctx):
    """each field of a message holds the quantity it is named after"""
    def f(name, q, spec, **kw):
        k = cg()
        k.update(kw)
        ctx.function(name, P + q, spec, **k)

    def C(R, q, m, *a):
        return R.val(R.call(P + "c_" + q, m, *[num(x) for x in a]))

    def content(lab, q, b, want):
        def spec(R, x, m):
            care = b(R, "in")[1]
            return FALSE, lambda R, r: quiet(R, lambda: want(R, x, m)), care
        f("%s: every field holds what it is named after" % lab, "p_%s_pack" % q, spec, args=lambda R, fn: [b(R, "in")[0], R.param(fn, 1)])
    B = {}
    for lab, q, b in builders(ctx):
        B.setdefault(q, []).append((lab, b))

    def idof(fr_):
        return rec_get(fr_, "id_")

    def group(n, dof):
        def want(R, x, m):
            v = R.val(x)
            lg = R.val(R.call(P + n + "_log_", x)) if False else R.m(x, "log")
            return ([("number of coordinates", C(R, n + "_size", m), num(dof))] +
                    [("coordinate %d of the logarithm" % i, C(R, n + "_alg", m, i), R.call(P + "v%d_at" % dof, R.ref(lg), num(i))) for i in range(dof)] +
                    [("into", C(R, n + "_into", m), R.m(R.m(x, "into"), "id")), ("from", C(R, n + "_from", m), R.m(R.m(x, "from"), "id"))])
        return want
    for n, dof in (("se3", 6), ("so3", 3)):
        for lab, b in B[n]:
            content(lab, n, b, group(n, dof))
    for lab, b in B["uuid"]:
        content(lab, "uuid", b, lambda R, x, m: [("text", C(R, "uuid", m), R.m(x, "to_string"))])
    for lab, b in B["frame"]:
        content(lab, "frame", b, lambda R, x, m: [("identifier", C(R, "frame", m), R.m(x, "id"))])
    for lab, b in B["fvec"]:
        content(lab, "fvec", b, lambda R, x, m: [("coordinate %d" % i, C(R, "fvec_vec", m, i), R.call(P + "v3_at", R.ref(R.m(x, "vector")), num(i))) for i in range(3)] + [
            ("frame", C(R, "fvec_frame", m), R.m(R.m(x, "frame"), "id"))])
    for n, dof in (("se3", 6), ("so3", 3)):
        for s, K in (("jl", JL), ("jr", JR)):
            def jw(R, x, m):
                g, d, d2 = parts(R, x, K)
                q = "%s_%s" % (s, n)
                at = lambda v, i: R.call(P + "v%d_at" % dof, R.ref(v), num(i))
                return ([("pose", C(R, q + "_pose", m), g)] + [("first derivative %d" % i, C(R, q + "_d", m, i), at(d, i)) for i in range(dof)] +
                        [("second derivative %d" % i, C(R, q + "_d2", m, i), at(d2, i)) for i in range(dof)])
            for lab, b in B["%s_%s" % (s, n)]:
                content(lab, "%s_%s" % (s, n), b, jw)
    for lab, b in B["tc_se3"]:
        def tw(R, x, m):
            pts = R.m(x, "control_pts")
            N = int(nconst(IN.seq_size(pts)))
            out = [("number of points", C(R, "tc_size", m), num(N))]
            for i in range(N):
                p = IN.seq_at(pts, num(i))
                out += [("time %d" % i, C(R, "tc_time", m, i), rec_get(p, "time")), ("point %d" % i, C(R, "tc_point", m, i), rec_get(p, "point"))]
            return out
        content(lab, "tc_se3", b, tw)
    for lab, b in B["dc"]:
        def dw(R, x, m):
            N = int(nconst(R.call(P + "dc_size", x)))
            return [("number of points", C(R, "dc_size", m), num(N))] + [
                ("pose %d" % i, C(R, "dc_point", m, i), R.val(R.call(P + "dc_ctrl_pose", x, num(i)))) for i in range(N)]
        content(lab, "dc", b, dw)
    for lab, b in B["traj"]:
        def trw(R, x, m):
            st = R.val(R.call(P + "traj_start", x))
            s, n = C(R, "traj_secs", m), C(R, "traj_nanos", m)
            return [("start time", add(nmul(num(10 ** 9), s), n), st), ("seconds", s, R.I.idiv(st, num(10 ** 9))),
                    ("curve", C(R, "traj_curve", m), R.val(R.call(P + "traj_curve", x)))]
        content(lab, "traj", b, trw)
    for kind, _ in VPK:
        for named in (False, True):
            def vw(R, x, m):
                out = [("identifier", C(R, "vp_id", m), R.val(R.call(P + "vp_id", x))), ("file", C(R, "vp_file", m), R.val(R.call(P + "vp_file", x))),
                       ("line", C(R, "vp_line", m), R.val(R.call(P + "vp_line", x))),
                       ("name", C(R, "vp_name", m), R.val(R.call(P + "vp_name", x)) if named else strc("")),
                       ("payload", C(R, "vp_get_" + kind, m), R.val(R.call(P + "vp_get_" + kind, x)))]
                return out + [("payload kind", C(R, "vp_has_" + k2, m), TRUE if k2 == kind else FALSE) for k2, _ in VPK]
            content("view primitive holding %s%s" % (kind, ", named" if named else ""), "vp", lambda R, tag: primitive(R, kind, named, tag), vw)


def run_malformed(ctx):
    """unpacking a message that does not hold a value of the type fails"""
    def f(name, q, spec, **kw):
        k = cg()
        k.update(kw)
        ctx.function(name, P + q, spec, **k)
    f("a matrix with too few entries is rejected", "m23_into_33", lambda R, a, o: (TRUE, None))
    f("a matrix with too many entries is rejected", "m33_into_23", lambda R, a, o: (TRUE, None))

    def size(q, c, dof):
        f("%s: a message with another number of entries (%s) is rejected" % (q, c), "p_%s_unpack" % q, lambda R, m: (
            TRUE, None, b_not(c_eq(R.val(R.call(P + "c_%s_%s" % (q, c), m)), num(dof)))))
    size("se3", "size", 6)
    size("so3", "size", 3)
    size("fvec", "size", 3)
    for n, dof in (("se3", 6), ("so3", 3)):
        for s in ("jl", "jr"):
            for c in ("d_size", "d2_size", "alg_size"):
                size("%s_%s" % (s, n), c, dof)

    def one_null(q):
        def spec(R, m):
            a, b = [R.val(R.call(P + "c_%s_%s" % (q, w), m)) for w in ("into", "from")]
            nu = rec_get(nullframe(R), "id_")
            return TRUE, None, b_not(b_iff(c_eq(rec_get(a, "id_"), rec_get(nu, "id_")), c_eq(rec_get(b, "id_"), rec_get(nu, "id_"))))
        f("%s: a message with exactly one null frame is rejected" % q, "p_%s_unpack" % q, spec)
    one_null("se3")
    one_null("so3")
    f("a view primitive message without payload is rejected", "vp_unpack_unset", lambda R, *a: (TRUE, None))
