"""Two-jets, quintic segments, time-parameterised and distance-parameterised curves."""
from fractions import Fraction
from ..values import *
from ..spec import *
from .. import models as M
from .. import contracts as CT
from .frames import SO3, SE3, P, nullf, nullframe

AG = dict(mode=None, contracts=True)


def ag():
    return dict(mode=Mode(abs_group=True, abs_vec=True), contracts=True)


def g_of(x):
    return rec_get(x, "g")


def G(R, x):
    return g_of(R.val(x))


def fr(R, x):
    x = R.val(x)
    return rec_get(x, "into_"), rec_get(x, "from_")


def inv_fr(R, x):
    a, b = fr(R, x)
    return b_iff(nullf(a), nullf(b))


class JL:
    NAMES = ("frame_from_ref", "d_frame_from_ref", "d2_frame_from_ref")


class JR:
    NAMES = ("ref_from_frame", "d_ref_from_frame", "d2_ref_from_frame")


def parts(R, j, K=JL):
    return tuple(R.m(j, n) for n in K.NAMES)


def jet(K, pose, d, d2, frames=None):
    """post: the result is the jet (group term, d, d2) with the given frames"""
    def post(R, r):
        x, v, v2 = parts(R, r, K)
        out = [("pose", g_of(x), pose), ("first derivative", v, d), ("second derivative", v2, d2)]
        if frames is not None:
            out += [("into frame", fr(R, x)[0], frames[0]), ("from frame", fr(R, x)[1], frames[1])]
        return out
    return post


def run_twojets(ctx):
    def f(name, q, spec, **kw):
        k = ag()
        k.update(kw)
        ctx.function(name, P + q, spec, **k)
    for n in ("se3", "so3"):
        for s, K in (("jl", JL), ("jr", JR)):
            nm = "%s %s two-jet " % (n, "left" if K is JL else "right")
            f(nm + "construction", "%s_%s" % (n, s), lambda R, g, d, d2: (
                FALSE, jet(K, G(R, g), d, d2, fr(R, g))))

            def ident(R, *a):
                nf = nullframe(R)
                i = [R.val(x) for x in a] or [nf, nf]
                return b_xor(nullf(i[0]), nullf(i[1])), jet(K, M.G_E, ZERO, ZERO, i)
            f(nm + "identity", "%s_%s_id" % (n, s), ident)
            f(nm + "framed identity", "%s_%s_idf" % (n, s), ident)

            def mul_(R, a, b):
                (ga, da, da2), (gb, db, db2) = parts(R, a, K), parts(R, b, K)
                fa, fb = fr(R, ga), fr(R, gb)
                both = b_not(b_or(nullf(fa[0]), nullf(fb[0])))
                care = b_and(inv_fr(R, ga), inv_fr(R, gb))
                nf = nullframe(R)
                frames = (merge(both, fa[0], nf), merge(both, fb[1], nf))
                thr = b_and(both, b_not(c_eq(fa[1], fb[0])))
                A, B = g_of(ga), g_of(gb)
                if K is JL:
                    Adb = M.g_Ad(A, db)
                    d = add(da, Adb)
                    d2 = add(add(da2, M.g_Ad(A, db2)), M.g_brk(da, Adb))
                else:
                    Bi = M.g_inv(B)
                    Ada = M.g_Ad(Bi, da)
                    d = add(db, Ada)
                    d2 = sub(add(db2, M.g_Ad(Bi, da2)), M.g_brk(db, Ada))
                return thr, jet(K, M.g_mul(A, B), d, d2, frames), care
            f(nm + "composition follows the product rule", "%s_%s_mul" % (n, s), mul_)

            def inv_(R, a):
                g, d, d2 = parts(R, a, K)
                A = g_of(g)
                B = M.g_inv(A) if K is JL else A
                x, y = fr(R, g)
                return FALSE, jet(K, M.g_inv(A), neg(M.g_Ad(B, d)), neg(M.g_Ad(B, d2)), (y, x)), inv_fr(R, g)
            f(nm + "inverse is the jet of the inverse curve", "%s_%s_inv" % (n, s), inv_)

            def conv(R, a):
                g, d, d2 = parts(R, a, K)
                x, y = fr(R, g)
                return FALSE, jet(JR if K is JL else JL, M.g_inv(g_of(g)), neg(d), neg(d2), (y, x)), inv_fr(R, g)
            f(nm + "conversion to the other convention", "%s_%s" % (n, "jl_right" if K is JL else "jr_left"), conv)

            def approx(R, a, b):
                pa, pb = parts(R, a, K), parts(R, b, K)
                e = R.I.contracts["resim::transforms::%s::is_approx" % n.upper()](R.I, None, R.ref(pa[0]), [R.ref(pb[0])])
                e = b_and(e, b_and(M.is_approx(R.I, pa[1], pb[1]), M.is_approx(R.I, pa[2], pb[2])))
                return FALSE, lambda R, r: [("approximate equality compares pose, frames and both derivatives", r, e)]
            f(nm + "approximate equality", "%s_%s_approx" % (n, s), approx)

            def setter(i):
                def spec(R, j, v):
                    old = parts(R, j, K)

                    def post(R, r):
                        new = parts(R, j, K)
                        want = list(old)
                        want[i] = R.val(v)
                        return [(K.NAMES[k], new[k], want[k]) for k in range(3)]
                    return FALSE, post
                return spec
            for i, x in enumerate(("set", "set_d", "set_d2")):
                f(nm + "setter %d changes only its part" % i, "%s_%s_%s" % (n, s, x), setter(i))
            f(nm + "copy", "%s_%s_copy" % (n, s), lambda R, a: (
                FALSE, lambda R, r, e=parts(R, a, K): [(K.NAMES[k], parts(R, r, K)[k], e[k]) for k in range(3)]))
            f(nm + "assignment", "%s_%s_assign" % (n, s), lambda R, a, b: (
                FALSE, lambda R, r, e=parts(R, b, K): [(K.NAMES[k], parts(R, a, K)[k], e[k]) for k in range(3)]))


# ---------------------------------------------------------------- derivatives of group-valued expressions
class NoDerivative(Exception):
    pass


def mentions(v, t, memo=None):
    memo = {} if memo is None else memo
    if v is t:
        return True
    if v.id in memo:
        return memo[v.id]
    memo[v.id] = False
    r = any(mentions(c, t, memo) for c in children(v))
    memo[v.id] = r
    return r


def d_group(g, t):
    """left derivative of a group term in the scalar symbol t: g' = delta g"""
    if not mentions(g, t):
        return ZERO
    if g.tag == "t" and g.a[0] == "gmul":
        fs = g.a[1:]
        r = ZERO
        pre = M.G_E
        for x in fs:
            r = add(r, M.g_Ad(pre, d_group(x, t)))
            pre = M.g_mul(pre, x)
        return r
    if g.tag == "t" and g.a[0] == "ginv":
        return neg(M.g_Ad(g, d_group(g.a[1], t)))
    if g.tag == "t" and g.a[0] == "gexp":
        ts = M.v_terms(tonum(g.a[1]))
        if ts is None or any(w is not ts[0][1] for _, w in ts) or mentions(ts[0][1], t):
            raise NoDerivative(str(g)[:200])
        return nmul(d_num(nsum(c for c, _ in ts), t), atom(ts[0][1]))
    raise NoDerivative(str(g)[:200])


def d_atom(a, t):
    if a is t:
        return ONE
    if not mentions(a, t):
        return ZERO
    if a.tag == "t" and a.a[0] == "Ad":
        return add(M.g_brk(d_group(a.a[1], t), atom(a)), M.g_Ad(a.a[1], d_atom(a.a[2], t)))
    if a.tag == "t" and a.a[0] == "brk":
        return add(M.g_brk(d_atom(a.a[1], t), atom(a.a[2])), M.g_brk(atom(a.a[1]), d_atom(a.a[2], t)))
    if a.tag == "t" and a.a[0] == "inv":
        return neg(nmul(npow(atom(a), 2), d_num(a.a[1], t)))
    raise NoDerivative(str(a)[:200])


def d_num(x, t):
    """derivative of a scalar or vector normal form"""
    x = tonum(x)
    r = ZERO
    for m, c in x.a:
        for i, (aid, e) in enumerate(m):
            a = BYID[aid]
            da = d_atom(a, t)
            if da is ZERO:
                continue
            term = num(c * e)
            term = nmul(term, npow(atom(a), e - 1)) if e != 1 else term
            for j, (bid, e2) in enumerate(m):
                if j != i:
                    term = nmul(term, npow(atom(BYID[bid]), e2))
            r = nadd(r, nmul(term, da))
    return r


def lifted(fn, v, t):
    return lift(lambda x: fn(x, t), v)


def smooth(R, r, t):
    """first derivative is the derivative of the pose, second the derivative of the first"""
    x, d, d2 = parts(R, r)
    try:
        e1 = lifted(d_group, g_of(x), t)
        e2 = lifted(d_num, d, t)
    except NoDerivative as ex:
        u = unk("derivative of %s" % ex)
        e1 = e2 = u
    return [("first derivative is the rate of change of the pose", d, e1),
            ("second derivative is the rate of change of the first", d2, e2)]


def run_quintic(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **kw)
    ends = {  # value, derivative, second derivative at 0 and 1
        "dest_from_orig": ((0, 0, 0), (1, 0, 0)),
        "d_orig": ((0, 1, 0), (0, 0, 0)),
        "d_dest": ((0, 0, 0), (0, 1, 0)),
        "d2_orig": ((0, 0, 1), (0, 0, 0)),
        "d2_dest": ((0, 0, 0), (0, 0, 1)),
    }

    def get(R, r):
        r = R.ref(R.val(r))
        return [R.call(P + "quintic_" + k, r) for k in ("a", "da", "d2a")]
    for k, (at0, at1) in ends.items():
        def deriv(R, t):
            def post(R, r):
                a, da, d2a = get(R, r)
                ts = BYID[t.a[0][0][0][0]]
                try:
                    e1, e2 = lifted(d_num, a, ts), lifted(d_num, da, ts)
                    # a polynomial of degree five: the sixth derivative vanishes
                    z = a
                    for _ in range(6):
                        z = lifted(d_num, z, ts)
                except NoDerivative as ex:
                    e1 = e2 = unk(str(ex))
                    z = ZERO
                return [("first derivative", da, e1), ("second derivative", d2a, e2), ("degree at most five", z, ZERO)]
            return FALSE, post
        f("quintic basis %s: derivatives" % k, "quintic_" + k, deriv)
        for w, u in ((at0, ZERO), (at1, ONE)):
            f("quintic basis %s at %s" % (k, "start" if u is ZERO else "end"), "quintic_" + k,
              lambda R, t: (FALSE, lambda R, r: [("%d" % i, x, num(y)) for i, (x, y) in enumerate(zip(get(R, r), w))]),
              args=lambda R, fn: [u])

    for n in ("se3", "so3"):
        def g(name, q, spec, **kw):
            k = ag()
            k.update(kw)
            ctx.function("%s segment %s" % (n, name), P + n + "_" + q, spec, **k)

        def mismatch(R, a, b):
            (xa, _, _), (xb, _, _) = parts(R, a), parts(R, b)
            fa, fb = fr(R, xa), fr(R, xb)
            return b_not(b_and(c_eq(fa[0], fb[0]), c_eq(fa[1], fb[1]))), b_and(inv_fr(R, xa), inv_fr(R, xb))

        def seg(R, a, b):
            thr, care = mismatch(R, a, b)
            pa, pb = parts(R, a), parts(R, b)

            def post(R, r):
                o, d = R.m(r, "orig"), R.m(r, "dest")
                return ([("origin", x, y) for x, y in zip(parts(R, o), pa)] +
                        [("destination", x, y) for x, y in zip(parts(R, d), pb)] +
                        [("reference frame", R.m(r, "reference_frame"), fr(R, pa[0])[1]),
                         ("point frame", R.m(r, "point_frame"), fr(R, pa[0])[0]),
                         ("framed", R.m(r, "is_framed"), b_not(nullf(fr(R, pa[0])[0])))])
            return thr, post, care
        g("keeps its end points and requires equal frames", "seg", seg)

        def at(end):
            def spec(R, a, b, t):
                thr, care = mismatch(R, a, b)
                x, d, d2 = parts(R, b if end else a)
                return thr, jet(JL, g_of(x), d, d2, fr(R, x)), care
            return spec
        for end in (0, 1):
            g("passes through its %s with both derivatives" % ("destination" if end else "origin"), "seg_mk_at", at(end),
              args=lambda R, fn: [R.param(fn, 0), R.param(fn, 1), num(end)])

        def inside(R, a, b, t):
            thr, care = mismatch(R, a, b)
            x, _, _ = parts(R, a)

            def post(R, r):
                y = parts(R, r)[0]
                return smooth(R, r, BYID[t.a[0][0][0][0]]) + [("into frame", fr(R, y)[0], fr(R, x)[0]), ("from frame", fr(R, y)[1], fr(R, x)[1])]
            return thr, post, care
        g("derivatives are those of the pose, everywhere", "seg_mk_at", inside)


def frame(R, name):
    k = [x for x in R.ctx.prog.records if x.startswith("resim::transforms::Frame<3")]
    return R.symof(k[0], R.name(name))


def ctrl(R, n, name, time=None, frames=None):
    key = "resim::curves::TCurve<resim::transforms::%s>::Control" % n.upper()
    k = [x for x in R.ctx.prog.records if x.startswith("resim::curves::TCurve<") and x.endswith("::Control") and n.upper() in x]
    v = R.symof(k[0] if k else key, R.name(name))
    if time is not None:
        v = rec_set(v, "time", time)
    if frames is not None:
        j = rec_get(v, "point")
        # the record's field holding the pose, whatever it is called
        for fn, x in j.a[1]:
            if x.tag == "rec" and rec_get(x, "g") is not None:
                j = rec_set(j, fn, rec_set(rec_set(x, "into_", frames[0]), "from_", frames[1]))
        v = rec_set(v, "point", j)
    return v


def run_tcurve(ctx):
    for n in ("se3", "so3"):
        def f(name, q, spec, **kw):
            k = ag()
            k.update(kw)
            ctx.function("%s time curve: %s" % (n, name), P + n + "_" + q, spec, **k)

        def cp(R, c):
            return R.m(c, "control_pts")

        def invc(R, pts):
            """what holds of the points of every reachable curve"""
            return b_all(inv_fr(R, R.m(rec_get(p, "point"), "frame_from_ref")) for p in pts)

        def same_frames(R, p, q):
            a, b = (fr(R, R.m(rec_get(x, "point"), "frame_from_ref")) for x in (p, q))
            return b_and(c_eq(a[0], b[0]), c_eq(a[1], b[1]))

        def curve_of(R, pts, care=TRUE):
            """the curve made by appending the points one by one (assuming that each is accepted)"""
            c = R.ref(R.val(R.call(P + n + "_tc_default")))
            for p in pts:
                R.call(P + n + "_tc_append", c, R.ref(p))
            R.I.throws[0][:] = []
            R.I.st.pc = care
            return c

        # --- append, on a curve of any length
        def append(R, c, p):
            pts = cp(R, c)
            cnt = IN.seq_size(pts)
            empty = c_eq(cnt, ZERO, True)
            last = IN.seq_at(pts, sub(cnt, ONE))
            pv = R.val(p)
            thr = b_and(b_not(empty), b_or(c_le(rec_get(pv, "time"), rec_get(last, "time")), b_not(same_frames(R, last, pv))))
            segs = R.m(c, "segments")

            def post(R, r):
                new = cp(R, c)
                ns = R.m(c, "segments")
                k = sub(IN.seq_size(ns), ONE)
                return [("control points", new, IN.seq_push(pts, pv)),
                        ("number of segments", IN.seq_size(ns), merge(empty, IN.seq_size(segs), add(IN.seq_size(segs), ONE)))]
            return thr, post, b_and(invc(R, [pv]), b_or(empty, invc(R, [last])))
        kept = lambda R, c, *a: [("control points", cp(R, c)), ("segments", R.m(c, "segments"))]
        f("append accepts only later points in the same frames", "tc_append", append, atomic=kept)

        # --- evaluation, on curves of 2..N points, unframed and framed.  Times are t0, t0+h0, t0+h0+h1, ... with h > 0
        for N in ((2, 3) if ctx.tier == "quick" else (2, 3, 4)):
            for framed in (False, True):
                F_ = "framed, " if framed else ""

                def mk(R):
                    ts, care = [R.real("t0")], TRUE
                    for i in range(N - 1):
                        h = R.real("h%d" % i)
                        care = b_and(care, c_gt(h, ZERO))
                        ts.append(add(ts[-1], h))
                    if framed:
                        fa, fb = frame(R, "into"), frame(R, "from")
                        care = b_and(care, b_not(b_or(nullf(fa), nullf(fb))))
                    else:
                        fa = fb = nullframe(R)
                    pts = [ctrl(R, n, "p%d" % i, ts[i], (fa, fb)) for i in range(N)]
                    return pts, ts, care, (fa, fb)

                def curve(R):
                    pts, ts, care, _ = mk(R)
                    R.I.assume(care)
                    c = curve_of(R, pts, care)
                    return c

                for k in range(N):
                    def at_knot(R, c, t):
                        pts, ts, care, ff = mk(R)
                        x, d, d2 = parts(R, rec_get(pts[k], "point"))
                        return FALSE, jet(JL, g_of(x), d, d2, ff), care
                    f("%s%d points: passes through point %d with both derivatives" % (F_, N, k), "tc_at", at_knot,
                      args=lambda R, fn: [curve(R), mk(R)[1][k]])
                for k in range(N - 1):
                    def between(R, c, t):
                        pts, ts, care, ff = mk(R)
                        tau = R.real("tau")
                        care = b_and(care, b_and(c_gt(tau, ZERO), c_lt(tau, R.real("h%d" % k))))

                        def post(R, r):
                            y = parts(R, r)[0]
                            r2 = R.ref(lift_rec(R.val(r), care))
                            return smooth(R, r2, BYID[tau.a[0][0][0][0]]) + [
                                ("into frame", fr(R, y)[0], ff[0]), ("from frame", fr(R, y)[1], ff[1])]
                        return FALSE, post, care
                    f("%s%d points: between points %d and %d derivatives are those of the pose" % (F_, N, k, k + 1), "tc_at", between,
                      args=lambda R, fn: [curve(R), add(mk(R)[1][k], R.real("tau"))])

                def outside(R, c, t):
                    pts, ts, care, _ = mk(R)
                    return b_or(c_lt(t, ts[0]), c_gt(t, ts[-1])), None, care
                f("%s%d points: only times in range are accepted" % (F_, N), "tc_at", outside,
                  args=lambda R, fn: [curve(R), R.real("t")])
        # --- long curves: the point in force is found among many (times at unit distance from a symbolic start, uneven in the middle)
        def long_(R, N=17):
            ts = [add(R.real("t0"), num(i + (Fraction(1, 2) if i > 8 else 0))) for i in range(N)]
            nf = nullframe(R)
            return [ctrl(R, n, "p%d" % i, ts[i], (nf, nf)) for i in range(N)], ts
        for k in range(17):
            def far(R, c, t):
                pts, ts = long_(R)
                x, d, d2 = parts(R, rec_get(pts[k], "point"))
                return FALSE, jet(JL, g_of(x), d, d2, (nullframe(R),) * 2)
            f("17 points: passes through point %d with both derivatives" % k, "tc_at", far, args=lambda R, fn: [curve_of(R, long_(R)[0]), long_(R)[1][k]])
        for k in range(16):
            def amid(R, c, t):
                pts, ts = long_(R)
                pair = curve_of(R, pts[k:k + 2])
                e = R.call(P + n + "_tc_at", pair, t)
                g, d, d2 = parts(R, e)
                R.I.throws[0][:] = []
                R.I.st.pc = TRUE
                return FALSE, jet(JL, g_of(g), d, d2, (nullframe(R),) * 2)
            f("17 points: between points %d and %d as if the others were not there" % (k, k + 1), "tc_at", amid,
              args=lambda R, fn: [curve_of(R, long_(R)[0]), add(long_(R)[1][k], num(Fraction(1, 3)))])
        for N in (0, 1):
            f("no evaluation with %d points" % N, "tc_at", lambda R, c, t: (TRUE, None),
              args=lambda R, fn: [curve_of(R, [ctrl(R, n, "p%d" % i) for i in range(N)]), R.real("t")])

        # --- queries, on a curve of any length
        def query(what):
            def spec(R, c):
                pts = cp(R, c)
                cnt = IN.seq_size(pts)
                i = ZERO if what == "start" else sub(cnt, ONE)
                p = IN.seq_at(pts, i)
                x = R.m(rec_get(p, "point"), "frame_from_ref")
                e = {"start": rec_get(p, "time"), "end": rec_get(p, "time"), "ref": fr(R, x)[1], "pt": fr(R, x)[0],
                     "framed": b_not(nullf(fr(R, x)[0]))}[what]
                return c_eq(cnt, ZERO, True), lambda R, r: [(what, R.val(r), e)], b_or(c_eq(cnt, ZERO, True), invc(R, [p]))
            return spec
        f("start time is that of the first point", "tc_start", query("start"))
        f("end time is that of the last point", "tc_end", query("end"))
        if True:
            # frames: all control points share them, so any may be asked; decided for curves of 1..3 points
            for N in (0, 1, 2, 3):
                for q in ("ref", "pt", "framed"):
                    def spec(R, c):
                        pts = [ctrl(R, n, "p%d" % i) for i in range(N)]
                        if not pts:
                            return TRUE, None
                        care = invc(R, pts)
                        for i in range(N - 1):
                            care = b_and(care, b_and(c_lt(rec_get(pts[i], "time"), rec_get(pts[i + 1], "time")), same_frames(R, pts[i], pts[i + 1])))
                        x = R.m(rec_get(pts[0], "point"), "frame_from_ref")
                        e = {"ref": fr(R, x)[1], "pt": fr(R, x)[0], "framed": b_not(nullf(fr(R, x)[0]))}[q]
                        return FALSE, lambda R, r: [(q, R.val(r), e)], care
                    f("%s of a curve of %d points" % (q, N), "tc_" + q, spec,
                      args=lambda R, fn: [curve_of(R, [ctrl(R, n, "p%d" % i) for i in range(N)])])

        # --- bulk construction equals appending one by one
        def bulk(N):
            def spec(R, *a):
                pts = [ctrl(R, n, "p%d" % i) for i in range(N)]
                c = R.ref(R.val(R.call(P + n + "_tc_default")))
                for p in pts:
                    R.call(P + n + "_tc_append", c, R.ref(p))
                thr = R.thrown()
                R.I.throws[0][:] = []
                R.I.st.pc = TRUE
                e = R.val(c)
                return thr, lambda R, r: [("same curve", R.val(r), e)], invc(R, pts)
            return spec
        for N in (0, 1, 2, 3):
            f("building from %d points equals appending them" % N, "tc_vec", bulk(N),
              args=lambda R, fn: [R.ref(seq([("one", TRUE, ctrl(R, n, "p%d" % i)) for i in range(N)]))])
        f("brace construction equals appending", "tc_il", bulk(3),
          args=lambda R, fn: [R.ref(ctrl(R, n, "p%d" % i)) for i in range(3)])

        def app2(R, c, p, q):
            c2 = R.ref(R.val(c))
            R.call(P + n + "_tc_append", c2, R.ref(R.val(p)))
            R.call(P + n + "_tc_append", c2, R.ref(R.val(q)))
            thr = R.thrown()
            R.I.throws[0][:] = []
            R.I.st.pc = TRUE
            e = R.val(c2)
            return thr, lambda R, r: [("same curve", R.val(c), e)]
        f("appending a list equals appending its elements", "tc_append2", app2)
        f("a copy is the same curve", "tc_copy", lambda R, c: (FALSE, lambda R, r, e=R.val(c): [("curve", R.val(r), e)]))


def pose(R, name, frames):
    v = R.symof(SE3, R.name(name))
    return rec_set(rec_set(v, "into_", frames[0]), "from_", frames[1])


def run_dcurve(ctx):
    def f(name, q, spec, **kw):
        k = ag()
        k.update(kw)
        ctx.function("distance curve: " + name, P + q, spec, **k)

    def gi(a):
        return M.g_inv(a)

    def length(R, a, b):
        """arc length from pose a to pose b"""
        return CT.arclen_of(M.g_mul(gi(g_of(a)), g_of(b)))

    def curve_of(R, pts, care):
        c = R.ref(R.val(R.call(P + "dc_default")))
        for p in pts:
            R.call(P + "dc_append", c, R.ref(p))
        R.I.throws[0][:] = []
        R.I.st.pc = care
        return c

    def mk(R, N, framed):
        if framed:
            fa, fb = frame(R, "into"), frame(R, "from")
            care = b_not(b_or(nullf(fa), nullf(fb)))
        else:
            fa = fb = nullframe(R)
            care = TRUE
        pts = [pose(R, "p%d" % i, (fa, fb)) for i in range(N)]
        L = [length(R, pts[i], pts[i + 1]) for i in range(N - 1)]
        for x in L:
            care = b_and(care, c_ge(x, ZERO))
        return pts, L, care, (fa, fb)

    def state(R, c, pts, L):
        """the curve has exactly these points at their arc lengths, and the segments between them"""
        out = [("number of points", R.call(P + "dc_size", c), num(len(pts))),
               ("length", R.call(P + "dc_length", c), nsum(L))]
        for i, p in enumerate(pts):
            out += [("pose of point %d" % i, R.val(R.call(P + "dc_ctrl_pose", c, num(i))), p),
                    ("arc length of point %d" % i, R.call(P + "dc_ctrl_len", c, num(i)), nsum(L[:i]))]
        out.append(("number of segments", R.call(P + "dc_segs", c), num(max(0, len(pts) - 1))))
        for i in range(len(pts) - 1):
            out += [("start of segment %d" % i, R.call(P + "dc_seg_orig", c, num(i)), nsum(L[:i])),
                    ("end of segment %d" % i, R.call(P + "dc_seg_dest", c, num(i)), nsum(L[:i + 1])),
                    ("first pose of segment %d" % i, R.val(R.call(P + "dc_seg_from", c, num(i))), pts[i]),
                    ("last pose of segment %d" % i, R.val(R.call(P + "dc_seg_to", c, num(i))), pts[i + 1]),
                    ("motion of segment %d" % i, G(R, R.call(P + "dc_seg_rel", c, num(i))), M.g_mul(gi(g_of(pts[i])), g_of(pts[i + 1])))]
        return out

    for framed in (False, True):
        F_ = "framed, " if framed else ""
        for N in ((1, 2, 3) if ctx.tier == "quick" else (1, 2, 3, 4)):
            def curve(R, n=None):
                pts, L, care, _ = mk(R, N, framed)
                R.I.assume(care)
                return curve_of(R, pts, care)

            def appending(R, c, p):
                pts, L, care, ff = mk(R, N, framed)
                pv = R.val(p)
                thr = b_not(b_and(c_eq(rec_get(pv, "into_"), ff[0]), c_eq(rec_get(pv, "from_"), ff[1]))) if framed else FALSE
                care = b_and(care, inv_fr(R, p))
                if not framed:
                    care = b_and(care, nullf(rec_get(pv, "into_")))
                before = R.val(c)
                return thr, lambda R, r: state(R, c, pts + [pv], L + [length(R, pts[-1], pv)]), care
            f("%sappending to %d points" % (F_, N), "dc_append", appending, args=lambda R, fn: [curve(R), R.param(fn, 1)],
              atomic=lambda R, c, p: [(x, a) for x, a, _ in state(R, c, *mk(R, N, framed)[:2])])
            if N < 2:
                continue

            def start(R, c, s):
                pts, L, care, ff = mk(R, N, framed)
                return FALSE, lambda R, r: [("pose", G(R, r), g_of(pts[0])), ("into", fr(R, r)[0], ff[0]), ("from", fr(R, r)[1], ff[1])], care
            f("%s%d points: starts at the first point" % (F_, N), "dc_at", start, args=lambda R, fn: [curve(R), ZERO])
            for k in range(N - 1):
                def inside(R, c, s, end=False):
                    pts, L, care, ff = mk(R, N, framed)
                    u = ONE if end else R.real("u")
                    care = b_and(care, c_gt(L[k], ZERO))
                    if not end:
                        care = b_all([care, c_gt(u, ZERO), c_lt(u, ONE)])
                    a, b = g_of(pts[k]), g_of(pts[k + 1])
                    e = M.g_mul(a, M.g_exp(nmul(u, M.g_log(M.g_mul(gi(a), b)))))
                    return FALSE, lambda R, r: [("pose", G(R, r), e), ("into", fr(R, r)[0], ff[0]), ("from", fr(R, r)[1], ff[1])], care

                def q(R, end=False):
                    L = mk(R, N, framed)[1]
                    return add(nsum(L[:k]), nmul(ONE if end else R.real("u"), L[k]))
                f("%s%d points: geodesic between points %d and %d" % (F_, N, k, k + 1), "dc_at", inside,
                  args=lambda R, fn: [curve(R), q(R)])
                f("%s%d points: passes through point %d" % (F_, N, k + 1), "dc_at", lambda R, c, s: inside(R, c, s, True),
                  args=lambda R, fn: [curve(R), q(R, True)])

            def outside(R, c, s):
                pts, L, care, ff = mk(R, N, framed)
                return b_or(c_lt(s, ZERO), c_gt(s, nsum(L))), None, care
            f("%s%d points: only lengths along the curve are accepted" % (F_, N), "dc_at", outside,
              args=lambda R, fn: [curve(R), R.real("s")])
        f(F_ + "building from a list equals appending", "dc_vec", lambda R, *a: (
            FALSE, lambda R, r: state(R, r, mk(R, 3, framed)[0], mk(R, 3, framed)[1]), mk(R, 3, framed)[2]),
          args=lambda R, fn: [R.ref(seq([("one", TRUE, p) for p in mk(R, 3, framed)[0]]))])
        f(F_ + "brace construction equals appending", "dc_il", lambda R, *a: (
            FALSE, lambda R, r: state(R, r, mk(R, 3, framed)[0], mk(R, 3, framed)[1]), mk(R, 3, framed)[2]),
          args=lambda R, fn: [R.ref(p) for p in mk(R, 3, framed)[0]])
        f(F_ + "appending two equals appending each", "dc_append2", lambda R, c, *a: (
            FALSE, lambda R, r: state(R, c, mk(R, 3, framed)[0], mk(R, 3, framed)[1]), mk(R, 3, framed)[2]),
          args=lambda R, fn: [curve_of(R, mk(R, 3, framed)[0][:1], mk(R, 3, framed)[2])] + [R.ref(p) for p in mk(R, 3, framed)[0][1:]])
        for N in (0, 1, 3):
            for what in ("ref", "pt", "framed"):
                def query(R, c):
                    if N == 0:
                        return TRUE, None
                    pts, L, care, ff = mk(R, N, framed)
                    e = {"ref": ff[0], "pt": ff[1], "framed": TRUE if framed else FALSE}[what]
                    return FALSE, lambda R, r: [(what, R.val(r), e)], care
                f("%s%s of a curve of %d points" % (F_, what, N), "dc_" + what, query,
                  args=lambda R, fn: [curve_of(R, mk(R, N, framed)[0], mk(R, N, framed)[2])])
    # --- long curves: the segment is found among many (every step has length one)
    unit = dict(ag())
    unit["contracts"] = {k: (lambda I, node, this, args: ONE) if k.endswith("::arc_length") else c for k, c in CT.contracts().items()}

    def many(R, N=17):
        nf = nullframe(R)
        pts = [pose(R, "p%d" % i, (nf, nf)) for i in range(N)]
        return pts, curve_of(R, pts, TRUE)
    for k in range(16):
        for u in (Fraction(1, 3), ONE):
            u = u if u is ONE else num(u)

            def amid(R, c, s):
                pts = [R.val(p) for p in many(R)[0]]
                a, b = g_of(pts[k]), g_of(pts[k + 1])
                e = M.g_mul(a, M.g_exp(nmul(u, M.g_log(M.g_mul(gi(a), b)))))
                return FALSE, lambda R, r: [("pose", G(R, r), e)]
            f("17 points: %s" % ("passes through point %d" % (k + 1) if u is ONE else "geodesic between points %d and %d" % (k, k + 1)), "dc_at", amid,
              args=lambda R, fn: [many(R)[1], add(num(k), u)], **unit)
    # --- on a curve of any number of points (whatever those are)
    def grow(R, c, p):
        cnt, nseg = R.call(P + "dc_size", c), R.call(P + "dc_segs", c)
        at = lambda q, i: R.val(R.call(P + q, c, i))
        k = sub(cnt, ONE)
        first, last, len0 = at("dc_ctrl_pose", ZERO), at("dc_ctrl_pose", k), at("dc_ctrl_len", k)
        pv = R.val(p)
        eqf = lambda x, y: b_and(c_eq(rec_get(x, "into_"), rec_get(y, "into_")), c_eq(rec_get(x, "from_"), rec_get(y, "from_")))
        framed = b_not(nullf(rec_get(first, "into_")))
        j = R.integer("j")
        OLD = ["dc_ctrl_pose", "dc_ctrl_len"], ["dc_seg_orig", "dc_seg_dest", "dc_seg_from", "dc_seg_to"]
        old = [at(q, j) for qs in OLD for q in qs]
        R.I.throws[0][:] = []
        R.I.ub[:] = []
        R.I.st.pc = TRUE
        care = b_all([c_gt(cnt, ZERO), c_eq(add(nseg, ONE), cnt, True), inv_fr(R, R.ref(first)), inv_fr(R, p), eqf(first, last),
                      b_or(framed, nullf(rec_get(pv, "into_"))), c_le(ZERO, j)])

        def post(R, r):
            L = length(R, last, pv)
            out = [("number of points", R.call(P + "dc_size", c), add(cnt, ONE)), ("number of segments", R.call(P + "dc_segs", c), add(nseg, ONE)),
                   ("pose of the new point", at("dc_ctrl_pose", cnt), pv), ("arc length of the new point", at("dc_ctrl_len", cnt), add(len0, L)),
                   ("start of the new segment", at("dc_seg_orig", nseg), len0), ("end of the new segment", at("dc_seg_dest", nseg), add(len0, L)),
                   ("first pose of the new segment", at("dc_seg_from", nseg), last), ("last pose of the new segment", at("dc_seg_to", nseg), pv),
                   ("motion of the new segment", G(R, R.call(P + "dc_seg_rel", c, nseg)), M.g_mul(gi(g_of(last)), g_of(pv)))]
            i = 0
            for qs, n in zip(OLD, (cnt, nseg)):
                for q in qs:
                    out.append(("earlier %s" % q[3:], at(q, j), old[i], c_lt(j, n)))
                    i += 1
            return out
        return b_and(framed, b_not(eqf(pv, first))), post, care
    f("appending to any number of points", "dc_append", grow, ub=())
    f("first point", "dc_append", lambda R, c, p: (FALSE, lambda R, r, pv=R.val(p): state(R, c, [pv], [])),
      args=lambda R, fn: [curve_of(R, [], TRUE), R.param(fn, 1)])
    f("an empty curve has length zero", "dc_length", lambda R, c: (FALSE, lambda R, r: [("length", r, ZERO)]),
      args=lambda R, fn: [curve_of(R, [], TRUE)])
    for N in (0, 1):
        f("no evaluation with %d points" % N, "dc_at", lambda R, c, t: (TRUE, None),
          args=lambda R, fn: [curve_of(R, mk(R, N, False)[0], TRUE), R.real("s")])


def lift_rec(v, care):
    if v.tag == "rec":
        return rec(v.a[0], {k: lift_rec(x, care) for k, x in v.a[1]})
    return restrict(v, care) if v.tag == "dec" else v
