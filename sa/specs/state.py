"""Rigid-body states and trajectories."""
from fractions import Fraction
from ..values import *
from ..spec import *
from .. import models as M
from .curves import ag, jet, parts, fr, inv_fr, g_of, G, JL, JR, frame, pose
from .frames import SO3, SE3, P, nullf, nullframe

RB = "resim::actor::state::RigidBodyState<"


def comps(R, v, n, q):
    v = R.ref(R.val(v))
    return [R.call(P + q, v, num(i)) for i in range(n)]


def run_rbs(ctx):
    coord = dict(mode=Mode(abs_group=True, abs_vec=False), contracts=True)

    def f(name, q, spec, kw=None):
        ctx.function("rigid-body state: " + name, P + q, spec, **(kw or ag()))

    def observe(R, s):
        """pose and the twelve derivative components, through the getters"""
        s = s if R.I.is_ptr(s) else R.ref(s)
        p = R.val(R.call(P + "rbs_ref_from_body", s))
        return p, {k: comps(R, R.call(P + "rbs_" + k, s), 3, "v3_at") for k in ("v", "w", "dv", "dw")}

    def same(R, s, want, label=""):
        p, d = observe(R, s)
        wp, wd = want
        out = [(label + "pose", g_of(p), g_of(wp)), (label + "into frame", fr(R, p)[0], fr(R, wp)[0]), (label + "from frame", fr(R, p)[1], fr(R, wp)[1])]
        for k in wd:
            out += [("%s%s[%d]" % (label, k, i), d[k][i], wd[k][i]) for i in range(3)]
        return out
    Z = {k: [ZERO] * 3 for k in ("v", "w", "dv", "dw")}

    def built(R, a, v, w, dv, dw):
        want = (R.val(a), {k: comps(R, x, 3, "v3_at") for k, x in (("v", v), ("w", w), ("dv", dv), ("dw", dw))})
        return FALSE, lambda R, r: same(R, r, want)
    f("construction from pose and derivatives", "rbs_deriv", built, coord)
    f("construction from a pose is at rest", "rbs_pose", lambda R, a: (FALSE, lambda R, r, p=R.val(a): same(R, r, (p, Z))), coord)
    f("default state is at rest at the identity", "rbs_default", lambda R: (
        FALSE, lambda R, r: same(R, r, (rec(SE3, {"into_": nullframe(R), "from_": nullframe(R), "g": M.G_E}), Z))), coord)

    def jetted(R, j):
        g, d, d2 = parts(R, j, JR)
        d, d2 = comps(R, d, 6, "v6_at"), comps(R, d2, 6, "v6_at")
        return FALSE, lambda R, r: same(R, r, (g, {"w": d[:3], "v": d[3:], "dw": d2[:3], "dv": d2[3:]}))
    f("construction from a right two-jet: rotational part first", "rbs_jet", jetted, coord)

    def twojet(R, s):
        p, d = observe(R, s)

        def post(R, r):
            g, e, e2 = parts(R, r, JR)
            return ([("pose", R.val(g), p)] +
                    [("first derivative %d" % i, x, y) for i, (x, y) in enumerate(zip(comps(R, e, 6, "v6_at"), d["w"] + d["v"]))] +
                    [("second derivative %d" % i, x, y) for i, (x, y) in enumerate(zip(comps(R, e2, 6, "v6_at"), d["dw"] + d["dv"]))])
        return FALSE, post
    f("two-jet carries pose and derivatives", "rbs_two_jet", twojet, coord)
    for k in ("v", "w", "dv", "dw"):
        f("collected derivatives: " + k, "rbs_d_" + k, lambda R, s: (
            FALSE, lambda R, r, e=observe(R, s)[1][k]: [("%d" % i, x, y) for i, (x, y) in enumerate(zip(comps(R, r, 3, "v3_at"), e))]), coord)

        def setter(R, s, x):
            p, d = observe(R, s)
            d[k] = comps(R, x, 3, "v3_at")
            return FALSE, lambda R, r: same(R, s, (p, d))
        f("setting %s changes only it" % k, "rbs_set_" + k, setter, coord)
    f("setting the pose changes only it", "rbs_set_pose", lambda R, s, x: (
        FALSE, lambda R, r, w=(R.val(x), observe(R, s)[1]): same(R, s, w)), coord)

    # --- composition, in the calculus of right jets
    def j(R, s):
        s = s if R.I.is_ptr(s) else R.ref(s)
        return parts(R, R.call(P + "rbs_two_jet", s), JR)

    def rjet(R, s, pose_, d, d2, frames):
        x, v, v2 = j(R, s)
        return [("pose", g_of(x), pose_), ("velocity", v, d), ("acceleration", v2, d2), ("into frame", fr(R, x)[0], frames[0]), ("from frame", fr(R, x)[1], frames[1])]

    def compose(inverse):
        def spec(R, a, b):
            (ga, da, da2), (gb, db, db2) = j(R, a), j(R, b)
            care = b_and(inv_fr(R, ga), inv_fr(R, gb))
            A, B = g_of(ga), g_of(gb)
            fa, fb = fr(R, ga), fr(R, gb)
            if inverse:
                da, da2 = neg(M.g_Ad(A, da)), neg(M.g_Ad(A, da2))
                A = M.g_inv(A)
                fa = (fa[1], fa[0])
            both = b_not(b_or(nullf(fa[0]), nullf(fb[0])))
            nf = nullframe(R)
            frames = (merge(both, fa[0], nf), merge(both, fb[1], nf))
            Bi = M.g_inv(B)
            Ada = M.g_Ad(Bi, da)
            d2 = sub(add(db2, M.g_Ad(Bi, da2)), M.g_brk(db, Ada))
            return b_and(both, b_not(c_eq(fa[1], fb[0]))), lambda R, r: rjet(R, r, M.g_mul(A, B), add(db, Ada), d2, frames), care
        return spec
    f("composition", "rbs_mul", compose(False))
    f("relative state", "rbs_inverse_times", compose(True))

    def ident(R, *a):
        nf = nullframe(R)
        i = [R.val(x) for x in a] or [nf, nf]
        return b_xor(nullf(i[0]), nullf(i[1])), lambda R, r: rjet(R, r, M.G_E, ZERO, ZERO, i)
    f("identity", "rbs_identity", ident)
    f("framed identity", "rbs_identity_framed", ident)


NS = num(10 ** 9)


def run_traj(ctx):
    CK = "resim::actor::state::Trajectory::Control"

    def f(name, q, spec, **kw):
        k = ag()
        k.update(kw)
        ctx.function("trajectory: " + name, P + q, spec, **k)

    def jetof(R, c):
        s = R.ref(rec_get(c, "state"))
        return parts(R, R.call(P + "rbs_two_jet", s), JR)

    def frames_of(R, c):
        return fr(R, jetof(R, c)[0])

    def ctrl(R, name, at=None, frames=None):
        v = R.symof(CK, R.name(name))
        if at is not None:
            v = rec_set(v, "at_time", at)
        if frames is not None:
            def put(x):
                if x.tag == "rec":
                    if x.a[0] == SE3:
                        return rec_set(rec_set(x, "into_", frames[0]), "from_", frames[1])
                    return rec(x.a[0], {k: put(y) for k, y in x.a[1]})
                return x
            v = rec_set(v, "state", put(rec_get(v, "state")))
        return v

    def mk(R, N, framed):
        ts, care = [R.integer("t0")], TRUE
        for i in range(N - 1):
            h = R.integer("h%d" % i)
            care = b_and(care, c_gt(h, ZERO))
            ts.append(add(ts[-1], h))
        if framed:
            fa, fb = frame(R, "into"), frame(R, "from")
            care = b_and(care, b_not(b_or(nullf(fa), nullf(fb))))
        else:
            fa = fb = nullframe(R)
        pts = [ctrl(R, "p%d" % i, ts[i], (fa, fb)) for i in range(N)]
        return pts, ts, care, (fa, fb)

    def traj_of(R, pts, care):
        c = R.ref(R.val(R.call(P + "traj_default")))
        for p in pts:
            R.call(P + "traj_append", c, R.ref(p))
        R.I.throws[0][:] = []
        R.I.st.pc = care
        return c

    def observe(R, t, N):
        out = dict(size=R.call(P + "traj_size", t), start=R.val(R.call(P + "traj_start", t)))
        for i in range(N):
            out["time%d" % i] = R.call(P + "traj_ctrl_time", t, num(i))
            j = R.call(P + "traj_ctrl_point", t, num(i))
            g, d, d2 = parts(R, j)
            out["pose%d" % i], out["d%d" % i], out["dd%d" % i] = g_of(g), d, d2
            out["into%d" % i], out["from%d" % i] = fr(R, g)
        return out

    def wanted(R, pts):
        out = dict(size=num(len(pts)), start=rec_get(pts[0], "at_time"))
        t0 = rec_get(pts[0], "at_time")
        for i, p in enumerate(pts):
            g, d, d2 = jetof(R, p)
            out["time%d" % i] = nmul(sub(rec_get(p, "at_time"), t0), num(Fraction(1, 10 ** 9)))
            out["pose%d" % i], out["d%d" % i], out["dd%d" % i] = M.g_inv(g_of(g)), neg(d), neg(d2)
            out["from%d" % i], out["into%d" % i] = fr(R, g)
        return out

    def same(a, b):
        return [(k, a[k], b[k]) for k in b]

    def rstate(R, s, pose_, d, d2, frames):
        x, v, v2 = parts(R, R.call(P + "rbs_two_jet", s if R.I.is_ptr(s) else R.ref(s)), JR)
        return [("pose", g_of(x), pose_), ("velocity", v, d), ("acceleration", v2, d2), ("into frame", fr(R, x)[0], frames[0]), ("from frame", fr(R, x)[1], frames[1])]

    # --- append
    for framed in (False, True):
        F_ = "framed, " if framed else ""
        for N in (0, 1, 2):
            def appending(R, t, c):
                pts, ts, care, ff = mk(R, max(N, 1), framed)
                pts = pts[:N]
                cv = R.val(c)
                a, b = frames_of(R, cv)
                thr = FALSE
                if N:
                    thr = b_or(c_le(rec_get(cv, "at_time"), ts[N - 1]), b_not(b_and(c_eq(a, ff[0]), c_eq(b, ff[1]))))
                return thr, lambda R, r: same(observe(R, t, N + 1), wanted(R, pts + [cv])), b_and(care, b_iff(nullf(a), nullf(b)))
            f("%sappending to %d states" % (F_, N), "traj_append", appending,
              args=lambda R, fn: [traj_of(R, mk(R, max(N, 1), framed)[0][:N], mk(R, max(N, 1), framed)[2]), R.param(fn, 1)],
              atomic=lambda R, t, c: list(observe(R, t, N).items()))
        for N in ((2,) if ctx.tier == "quick" else (2, 3)):
            def curve(R):
                pts, ts, care, _ = mk(R, N, framed)
                R.I.assume(care)
                return traj_of(R, pts, care)
            for k in range(N):
                def at_knot(R, t, at):
                    pts, ts, care, ff = mk(R, N, framed)
                    g, d, d2 = jetof(R, pts[k])
                    return FALSE, lambda R, r: rstate(R, r, g_of(g), d, d2, ff), care
                f("%s%d states: passes through state %d at its time" % (F_, N, k), "traj_at", at_knot,
                  args=lambda R, fn: [curve(R), R.ref(mk(R, N, framed)[1][k])])
                f("%s%d states: passes through state %d at its time from the start" % (F_, N, k), "traj_at_d", at_knot,
                  args=lambda R, fn: [curve(R), R.ref(sub(mk(R, N, framed)[1][k], mk(R, N, framed)[1][0]))])
            def query(what):
                def spec(R, t):
                    pts, ts, care, ff = mk(R, N, framed)
                    e = {"start": ts[0], "end": ts[-1], "duration": sub(ts[-1], ts[0]), "ref": ff[0], "body": ff[1]}[what]
                    return FALSE, lambda R, r: [(what, R.val(r), e)], care
                return spec
            for what in ("start", "end", "duration", "ref", "body"):
                f("%s%d states: %s" % (F_, N, what), "traj_" + what, query(what), args=lambda R, fn: [curve(R)])
    def opaque_curve(R, fn):
        R.I.contracts.update(curve_contract(R))
        return [R.param(fn, 0), R.param(fn, 1)]

    # --- precision: only time differences become floating point, so the absolute time does not matter
    def shift_invariant(R, *a):
        R.I.i2f[:] = []
        care = mk(R, 2, False)[2]
        t0 = R.name("t0")

        def post(R, r):
            return [("integer time converted to floating point at %s is a difference of times" % loc, v, subst(v, {t0: add(atom(t0), R.integer("shift"))}))
                    for _, v, loc in R.I.i2f]
        return None, post, care
    t0plus = lambda R, n: add(R.integer("t0"), R.integer(n))
    f("evaluation depends on time differences only", "traj_at", shift_invariant,
      args=lambda R, fn: [traj_of(R, mk(R, 2, False)[0], TRUE), R.ref(t0plus(R, "tau"))])
    f("appending depends on time differences only", "traj_append", shift_invariant,
      args=lambda R, fn: [traj_of(R, mk(R, 1, False)[0], TRUE), R.ref(ctrl(R, "p", t0plus(R, "tau"), mk(R, 1, False)[3]))])
    # --- evaluation is that of the underlying curve, relative to the start time, for every trajectory
    CUT = ["resim::curves::TCurve::point_at", "resim::curves::TCurve<resim::transforms::SE3>::point_at"]

    def at_any(duration):
        def spec(R, t, at):
            tv = R.val(t)
            start = R.val(R.call(P + "traj_start", t))
            dt = R.val(at) if duration else sub(R.val(at), start)
            sec = nmul(dt, num(Fraction(1, 10 ** 9)))
            R.I.throws[0][:] = []
            jl = R.call(P + "traj_curve_at", t, sec)
            thr = R.thrown()
            g, d, d2 = parts(R, jl)
            care = inv_fr(R, g)
            ff = fr(R, g)
            return thr, lambda R, r: rstate(R, r, M.g_inv(g_of(g)), neg(d), neg(d2), (ff[1], ff[0])), care
        return spec

    f("evaluation at a time is the curve's, from the start time", "traj_at", at_any(False), args=opaque_curve)
    f("evaluation after a duration is the curve's", "traj_at_d", at_any(True), args=opaque_curve)
    for q in ("end", "duration", "ref", "body"):
        f("%s of an empty trajectory fails" % q, "traj_" + q, lambda R, t: (TRUE, None), args=lambda R, fn: [traj_of(R, [], TRUE)])

    def from_curve(R, c, t):
        cv, tv = R.val(c), R.val(t)
        return FALSE, lambda R, r: [("curve", R.val(R.call(P + "traj_curve", R.ref(R.val(r)))), cv), ("start", R.val(R.call(P + "traj_start", R.ref(R.val(r)))), tv)]
    f("construction from a curve keeps the curve and start time", "traj_from_curve", from_curve)

    def bulk(R, *a):
        pts = [R.val(x) for x in a]
        c = R.ref(R.val(R.call(P + "traj_default")))
        for p in pts:
            R.call(P + "traj_append", c, R.ref(p))
        thr = R.thrown()
        R.I.throws[0][:] = []
        R.I.st.pc = TRUE
        return thr, lambda R, r: [("same trajectory", R.val(r), R.val(c))], b_all(b_iff(*map(nullf, frames_of(R, p))) for p in pts)
    f("brace construction equals appending", "traj_il", bulk)

    def app2(R, t, p, q):
        c = R.ref(R.val(t))
        for x in (p, q):
            R.call(P + "traj_append", c, R.ref(R.val(x)))
        thr = R.thrown()
        R.I.throws[0][:] = []
        R.I.st.pc = TRUE
        return thr, lambda R, r: [("same trajectory", R.val(t), R.val(c))]
    f("appending a list equals appending its elements", "traj_append2", app2,
      args=lambda R, fn: [R.ref(R.val(R.call(P + "traj_default"))), R.param(fn, 1), R.param(fn, 2)])


def curve_contract(R):
    """time-curve evaluation as an uninterpreted function of curve and time (P07 decides what it is)"""
    def point_at(I, node, this, args):
        c, t = M.val(I, this), M.val(I, args[0])
        I.throw(T("exc", strc(ASSERT), VOID), bvar(T("curve_fails", c, t)))
        key = [k for k in I.prog.records if k.startswith("resim::curves::TwoJetL<") and "SE3" in k][0]
        return R.symof(key, T("curve_at", c, t))
    return {"resim::curves::TCurve<resim::transforms::SE3>::point_at": point_at}
