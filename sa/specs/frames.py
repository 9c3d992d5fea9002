"""Frame bookkeeping of transforms and framed vectors."""
from ..values import *
from ..spec import *
from ..contracts import null_of

SO3 = "resim::transforms::SO3"
SE3 = "resim::transforms::SE3"
P = "probe::"


def nullf(fr):
    return null_of(fr)


def inv_of(R, x):
    """what every reachable transform satisfies (established by the same property)"""
    into, frm = R.m(x, "into"), R.m(x, "from")
    c = b_iff(nullf(into), nullf(frm))
    v = R.val(x)
    if v.a[0] == SE3:
        r = R.m(x, "rotation")
        c = b_and(c, b_and(nullf(R.m(r, "into")), nullf(R.m(r, "from"))))
    return c


def frames(R, x):
    return R.m(x, "into"), R.m(x, "from")


def framed(fr):
    return b_not(b_or(nullf(fr[0]), nullf(fr[1])))


def res(fr):
    """post: the result carries the frames fr, and its rotation part none"""
    def post(R, ret):
        out = [("frame the result transforms into", R.m(ret, "into"), fr[0]),
               ("frame the result transforms from", R.m(ret, "from"), fr[1])]
        if R.val(ret).a[0] == SE3:
            r = R.m(ret, "rotation")
            out += [("rotation part carries no into frame", nullf(R.m(r, "into")), TRUE),
                    ("rotation part carries no from frame", nullf(R.m(r, "from")), TRUE)]
        return out
    return post


def nullframe(R):
    fk = [k for k in R.ctx.prog.records if k.startswith("resim::transforms::Frame<3")]
    z = seq([("one", TRUE, ZERO)] * 16)

    def fill(key):
        r = R.ctx.prog.records[key]
        f = r["fields"][0]
        d = r["_T"][f["t"]]
        sub_ = d.get("r")
        if sub_ in R.ctx.prog.records and R.ctx.prog.records[sub_].get("repo"):
            return rec(key, {f["name"]: fill(sub_)})
        return rec(key, {f["name"]: z})
    return fill(fk[0])


def semi(a, b):
    return b_xor(nullf(a), nullf(b))


def run(ctx):
    for n, key in (("so3", SO3), ("se3", SE3)):
        def V(R, *a):
            return [R.val(x) for x in a]

        def unf(R):
            nf = nullframe(R)
            return res((nf, nf))

        # unframed constructions
        for c in ["default", "identity", "exp"] + (["aa", "angle", "quat", "mat"] if n == "so3" else ["t"]):
            ctx.function("%s %s yields an unframed transform" % (n, c), P + "%s_%s" % (n, c),
                         lambda R, *a: (FALSE, unf(R)))
        if n == "se3":
            for c in ("r", "rt"):
                ctx.function("se3 from (framed) rotation %s is unframed" % c, P + "se3_" + c,
                             lambda R, *a: (FALSE, unf(R)))
        # framed constructions: last two arguments are (into, from)
        fc = ["identity_f", "identity_mm", "identity_cm", "identity_mc", "exp_f", "exp_mm", "exp_cm", "exp_mc"]
        fc += ["aa_f", "angle_f", "quat_f", "mat_f"] if n == "so3" else ["t_f", "r_f", "rt_f"]
        for c in fc:
            def spec(R, *a):
                into, frm = V(R, a[-2], a[-1])
                return semi(into, frm), res((into, frm))
            ctx.function("%s %s takes its frames and rejects half-framed" % (n, c), P + "%s_%s" % (n, c), spec)

        def mul(R, a, b):
            fa, fb = frames(R, a), frames(R, b)
            both = b_and(framed(fa), framed(fb))
            nf = nullframe(R)
            return (b_and(both, b_not(c_eq(fa[1], fb[0]))),
                    res((merge(both, fa[0], nf), merge(both, fb[1], nf))), b_and(inv_of(R, a), inv_of(R, b)))
        ctx.function("%s composition frames" % n, P + n + "_mul", mul)

        def inverse(R, a):
            fa = frames(R, a)
            return FALSE, res((fa[1], fa[0])), inv_of(R, a)
        ctx.function("%s inverse swaps frames" % n, P + n + "_inverse", inverse)

        def interp(R, a, t):
            return FALSE, res(frames(R, a)), inv_of(R, a)
        ctx.function("%s interpolation keeps frames" % n, P + n + "_interp", interp)

        def interp_f(R, a, t, nfrom):
            fa = frames(R, a)
            nfv = R.val(nfrom)
            return b_or(b_not(framed(fa)), nullf(nfv)), res((fa[0], nfv)), inv_of(R, a)
        ctx.function("%s interpolation with new from frame" % n, P + n + "_interp_f", interp_f)

        def rotate_f(R, a, v):
            fa = frames(R, a)
            fv = R.m(v, "frame")
            return (b_or(b_not(framed(fa)), b_not(c_eq(fa[1], fv))),
                    lambda R, r: [("frame of the rotated vector", R.m(r, "frame"), fa[0])], inv_of(R, a))
        ctx.function("%s rotate framed vector" % n, P + n + "_rotate_f", rotate_f)

        for op in ("act", "rotate"):
            ctx.function("%s %s on a plain vector never fails" % (n, op), P + "%s_%s" % (n, op),
                         lambda R, a, v: (FALSE, None, inv_of(R, a)))

        def set_frames(R, a, into, frm):
            i, f = R.val(into), R.val(frm)
            return (b_or(nullf(i), nullf(f)),
                    lambda R, r: [("into", R.m(a, "into"), i), ("from", R.m(a, "from"), f)], inv_of(R, a))
        ctx.function("%s set_frames" % n, P + n + "_set_frames", set_frames)

        def set_unframed(R, a):
            nf = nullframe(R)
            return FALSE, lambda R, r: [("into", R.m(a, "into"), nf), ("from", R.m(a, "from"), nf)]
        ctx.function("%s set_unframed" % n, P + n + "_set_unframed", set_unframed)

        ctx.function("%s is_framed" % n, P + n + "_is_framed", lambda R, a: (
            FALSE, lambda R, r, f=frames(R, a): [("is_framed", r, framed(f))], inv_of(R, a)))
        ctx.function("%s verify_into" % n, P + n + "_verify_into", lambda R, a, f: (
            FALSE, lambda R, r, e=c_eq(R.m(a, "into"), R.val(f)): [("result", r, e)]))
        ctx.function("%s verify_from" % n, P + n + "_verify_from", lambda R, a, f: (
            FALSE, lambda R, r, e=c_eq(R.m(a, "from"), R.val(f)): [("result", r, e)]))
        ctx.function("%s verify_frames" % n, P + n + "_verify_frames", lambda R, a, f, g: (
            FALSE, lambda R, r, e=b_and(c_eq(R.m(a, "into"), R.val(f)), c_eq(R.m(a, "from"), R.val(g))): [("result", r, e)]))

        def approx(R, a, b):
            fa, fb = frames(R, a), frames(R, b)
            same = b_and(c_eq(fa[0], fb[0]), c_eq(fa[1], fb[1]))
            t = R.call(P + n + "_is_approx_transform", a, b)
            return FALSE, lambda R, r: [("approximate equality also compares frames", r, b_and(t, same))], b_and(inv_of(R, a), inv_of(R, b))
        ctx.function("%s is_approx compares both frames" % n, P + n + "_is_approx", approx)

        def copy(R, a):
            return FALSE, res(frames(R, a)), inv_of(R, a)
        ctx.function("%s copy keeps frames" % n, P + n + "_copy", copy)
        ctx.function("%s move keeps frames" % n, P + n + "_move", copy)

        def assign(R, a, b):
            fb = frames(R, b)
            return FALSE, lambda R, r: res(fb)(R, a), b_and(inv_of(R, a), inv_of(R, b))
        ctx.function("%s assignment takes frames" % n, P + n + "_assign", assign)
        ctx.function("%s move assignment takes frames" % n, P + n + "_move_assign", assign)

    def dist(which):
        def spec(R, a, b):
            return b_not(c_eq(R.m(a, which), R.m(b, which))), None, b_and(inv_of(R, a), inv_of(R, b))
        return spec
    ctx.function("se3_distance requires matching from frames", P + "se3_dist", dist("from"))
    ctx.function("se3_inverse_distance requires matching into frames", P + "se3_inv_dist", dist("into"))
