"""Values of the rigid-transform operations (exact real arithmetic)."""
from ..values import *
from ..spec import *
from .. import models as M
from .frames import SO3, SE3, P, inv_of


def rm(R, x):
    return R.m(x, "rotation_matrix")


def rot(R, x):
    """rotation matrix of an SO3 or SE3"""
    v = R.val(x)
    return rm(R, R.m(x, "rotation")) if v.a[0] == SE3 else rm(R, x)


def tr(R, x):
    return R.m(x, "translation")


def given(R, *xs):
    c = TRUE
    for x in xs:
        rotation_entries(rot(R, x))
        c = b_and(c, inv_of(R, x))
    return c


def head(v):
    return mat(3, 1, v.a[2][:3])


def tail(v):
    return mat(3, 1, v.a[2][3:])


def cat(a, b):
    return mat(6, 1, list(a.a[2]) + list(b.a[2]))


def skew(v):
    x, y, z = v.a[2]
    return mat(3, 3, [ZERO, neg(z), y, z, ZERO, neg(x), neg(y), x, ZERO])


def blocks(a, b, c, d):
    out = []
    for (l, r) in ((a, b), (c, d)):
        for i in range(3):
            out += list(l.a[2][3 * i:3 * i + 3]) + list(r.a[2][3 * i:3 * i + 3])
    return mat(6, 6, out)


Z3 = mat(3, 3, [ZERO] * 9)
I3 = M.eident(3)
O3 = mat(3, 1, [ZERO] * 3)


def rodrigues(v):
    """rotation by |v| about v"""
    n2 = nsum(mul(x, x) for x in v.a[2])
    th = sqrt(n2)
    K = skew(v)
    K2 = M.emul(None, K, K)
    a = div(fun("sin", th), th)
    b = div(sub(ONE, fun("cos", th)), n2)
    out = []
    for i in range(9):
        out.append(add(add(I3.a[2][i], mul(a, K.a[2][i])), mul(b, K2.a[2][i])))
    z = c_gt(n2, ZERO)
    return mat(3, 3, [merge(z, o, i) for o, i in zip(out, I3.a[2])])


def result(exp_rot=None, exp_t=None):
    def post(R, ret):
        out = []
        if exp_rot is not None:
            out.append(("rotation", rot(R, ret), exp_rot))
        if exp_t is not None:
            out.append(("translation", tr(R, ret), exp_t))
        return out
    return post


def val(exp, lab="value"):
    return lambda R, r: [(lab, R.val(r), exp)]


def run(ctx):
    E = M

    def mm(a, b):
        return E.emul(None, a, b)

    def add_(a, b):
        return E.mmap(add, a, b)

    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **kw)

    # ---- construction and access
    for c in ("default", "identity"):
        f("so3 %s is the identity" % c, "so3_" + c, lambda R, *a: (None, result(I3)))
        f("se3 %s is the identity" % c, "se3_" + c, lambda R, *a: (None, result(I3, O3)))
    for c in ("identity_f", "identity_mm", "identity_cm", "identity_mc"):
        f("so3 %s is the identity" % c, "so3_" + c, lambda R, *a: (None, result(I3)))
        f("se3 %s is the identity" % c, "se3_" + c, lambda R, *a: (None, result(I3, O3)))
    for c in ("mat", "mat_f"):
        f("so3 %s stores the matrix" % c, "so3_" + c, lambda R, m, *a: (None, result(R.val(m))))
    for c in ("angle", "angle_f"):
        f("so3 %s is the rotation by angle about axis" % c, "so3_" + c,
          lambda R, t, ax, *a: (None, result(E.aa_matrix(t, R.val(ax)))))
    for c in ("aa", "aa_f"):
        def aa(R, x, *a):
            v = R.val(x)
            return None, result(E.aa_matrix(rec_get(v, "angle"), rec_get(v, "axis")))
        f("so3 %s is the rotation by angle about axis" % c, "so3_" + c, aa)
    for c in ("quat", "quat_f"):
        def qt(R, x, *a):
            v = R.val(x)
            return None, result(E.quat_matrix(*[rec_get(v, k) for k in "wxyz"]))
        f("so3 %s is the rotation of the quaternion" % c, "so3_" + c, qt)
    for c in ("r", "r_f"):
        f("se3 %s has the rotation and no translation" % c, "se3_" + c,
          lambda R, r, *a: (None, result(rot(R, r), O3), given(R, r)))
    for c in ("t", "t_f"):
        f("se3 %s has the translation and no rotation" % c, "se3_" + c, lambda R, t, *a: (None, result(I3, R.val(t))))
    for c in ("rt", "rt_f"):
        f("se3 %s has rotation and translation" % c, "se3_" + c,
          lambda R, r, t, *a: (None, result(rot(R, r), R.val(t)), given(R, r)))
    for n in ("so3", "se3"):
        def same(R, a):
            return None, result(rot(R, a), tr(R, a) if n == "se3" else None), given(R, a)
        for c in ("copy", "move"):
            f("%s %s keeps the transform" % (n, c), n + "_" + c, same)

        def asg(R, a, b):
            e = (rot(R, b), tr(R, b) if n == "se3" else None)
            return None, lambda R, r: result(*e)(R, a), given(R, a, b)
        for c in ("assign", "move_assign"):
            f("%s %s takes the transform" % (n, c), n + "_" + c, asg)

        def keep(R, a, *x):
            e = (rot(R, a), tr(R, a) if n == "se3" else None)
            return None, lambda R, r: result(*e)(R, a), given(R, a)
        for c in ("set_frames", "set_unframed"):
            f("%s %s leaves the transform alone" % (n, c), n + "_" + c, keep)

    # ---- group operations
    f("so3 composition", "so3_mul", lambda R, a, b: (None, result(mm(rot(R, a), rot(R, b))), given(R, a, b)))
    f("se3 composition", "se3_mul", lambda R, a, b: (
        None, result(mm(rot(R, a), rot(R, b)), add_(mm(rot(R, a), tr(R, b)), tr(R, a))), given(R, a, b)))
    f("so3 inverse", "so3_inverse", lambda R, a: (None, result(E.etrans(rot(R, a))), given(R, a)))
    f("se3 inverse", "se3_inverse", lambda R, a: (
        None, result(E.etrans(rot(R, a)), E.mmap(neg, mm(E.etrans(rot(R, a)), tr(R, a)))), given(R, a)))
    f("so3 action", "so3_act", lambda R, a, v: (None, val(mm(rot(R, a), R.val(v))), given(R, a)))
    f("se3 action", "se3_act", lambda R, a, v: (None, val(add_(mm(rot(R, a), R.val(v)), tr(R, a))), given(R, a)))
    for n in ("so3", "se3"):
        f(n + " rotate", n + "_rotate", lambda R, a, v: (None, val(mm(rot(R, a), R.val(v))), given(R, a)))
        f(n + " rotate framed", n + "_rotate_f", lambda R, a, v: (
            None, lambda R, r, e=mm(rot(R, a), R.m(v, "vector")): [("vector", R.m(r, "vector"), e)], given(R, a)))

        def ap(R, a, b):
            e = E.is_approx(R.I, rot(R, a), rot(R, b))
            if n == "se3":
                e = b_and(e, E.is_approx(R.I, tr(R, a), tr(R, b)))
            return None, lambda R, r: [("both parts compared", r, e)], given(R, a, b)
        f(n + " approximate equality of the transforms", n + "_is_approx_transform", ap)
    # ---- adjoints
    f("so3 adjoint", "so3_adjoint", lambda R, a: (None, val(rot(R, a)), given(R, a)))
    f("so3 adjoint of algebra", "so3_adjoint_alg", lambda R, v: (None, val(skew(R.val(v)))))
    f("so3 adjoint times", "so3_adjoint_times", lambda R, a, v: (None, val(mm(rot(R, a), R.val(v))), given(R, a)))
    f("so3 bracket", "so3_bracket", lambda R, a, b: (None, val(E.ecross(R.val(a), R.val(b)))))
    f("cross matrix", "cross_mat", lambda R, v: (None, val(skew(R.val(v)))))
    f("se3 adjoint", "se3_adjoint", lambda R, a: (
        None, val(blocks(rot(R, a), Z3, mm(skew(tr(R, a)), rot(R, a)), rot(R, a))), given(R, a)))
    f("se3 adjoint of algebra", "se3_adjoint_alg", lambda R, v: (
        None, val(blocks(skew(head(R.val(v))), Z3, skew(tail(R.val(v))), skew(head(R.val(v)))))))

    def adt(R, a, v):
        w, u = head(R.val(v)), tail(R.val(v))
        rw = mm(rot(R, a), w)
        return None, val(cat(rw, add_(E.ecross(tr(R, a), rw), mm(rot(R, a), u)))), given(R, a)
    f("se3 adjoint times", "se3_adjoint_times", adt)

    def brk(R, a, b):
        a, b = R.val(a), R.val(b)
        return None, val(cat(E.ecross(head(a), head(b)),
                             add_(E.ecross(tail(a), head(b)), E.ecross(head(a), tail(b)))))
    f("se3 bracket", "se3_bracket", brk)
    f("rotation part of a tangent vector", "se3_rot_part", lambda R, v: (None, val(head(R.val(v)))))
    f("translation part of a tangent vector", "se3_trans_part", lambda R, v: (None, val(tail(R.val(v)))))
    f("tangent vector from parts", "se3_parts", lambda R, a, b: (None, val(cat(R.val(a), R.val(b)))))
    f("writing the rotation part", "se3_set_rot_part", lambda R, v, r: (
        None, lambda R, _, e=cat(R.val(r), tail(R.val(v))): [("vector", R.val(v), e)]))
    f("writing the translation part", "se3_set_trans_part", lambda R, v, r: (
        None, lambda R, _, e=cat(head(R.val(v)), R.val(r)): [("vector", R.val(v), e)]))

    def dist(R, a, b):
        d = E.mmap(sub, tr(R, a), tr(R, b))
        return None, val(sqrt(nsum(mul(x, x) for x in d.a[2]))), given(R, a, b)
    f("distance between origins", "se3_dist", dist)
    f("distance between origins, inverse convention", "se3_inv_dist", dist)
    run_interp(ctx)


def run_explog(ctx):
    """exponential and logarithm, including the small-angle expansions"""
    E = M
    TOL9 = D("1e-9")

    def approx(R):
        R.cmp = Comparer(vals=24, tol=TOL9)

    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **kw)

    def closed(s):
        """a, b, c of the derivative of exp for squared angle s"""
        th = sqrt(s)
        a = div(fun("sin", th), th)
        b = div(sub(ONE, fun("cos", th)), s)
        return a, b, div(sub(ONE, a), s)

    def coeffs(R, s):
        approx(R)
        a, b, c = closed(s)

        def post(R, r):
            return [("first coefficient", R.call(P + "coeff_a", R.ref(R.val(r))), a),
                    ("second coefficient", R.call(P + "coeff_b", R.ref(R.val(r))), b),
                    ("third coefficient", R.call(P + "coeff_c", R.ref(R.val(r))), c)]
        return FALSE, post, c_gt(s, ZERO)
    f("coefficients of the exponential and its derivative", "exp_coeffs", coeffs)

    def coeffs0(R, s):
        def post(R, r):
            return [("first coefficient at zero", R.call(P + "coeff_a", R.ref(R.val(r))), ONE),
                    ("second coefficient at zero", R.call(P + "coeff_b", R.ref(R.val(r))), HALF),
                    ("third coefficient at zero", R.call(P + "coeff_c", R.ref(R.val(r))), num(F(1, 6)))]
        return FALSE, post
    from fractions import Fraction as F
    f("coefficients at zero angle", "exp_coeffs", coeffs0, args=lambda R, fn: [ZERO])

    for sfx in ("exp", "exp_f", "exp_mm", "exp_cm", "exp_mc"):
        f("so3 %s is the rotation by |v| about v" % sfx, "so3_" + sfx,
          lambda R, v, *a: (None, result(rodrigues(R.val(v)))))

        def se3exp(R, v, *a):
            approx(R)
            w, u = head(R.val(v)), tail(R.val(v))
            s = nsum(mul(x, x) for x in w.a[2])
            A, B, C = closed(s)
            wu = E.ecross(w, u)
            dot = nsum(mul(x, y) for x, y in zip(w.a[2], u.a[2]))
            t = mat(3, 1, [add(add(mul(A, u.a[2][i]), mul(B, wu.a[2][i])), mul(mul(C, dot), w.a[2][i])) for i in range(3)])
            return None, result(rodrigues(w), t), c_gt(s, ZERO)
        f("se3 %s" % sfx, "se3_" + sfx, se3exp)

        def se3exp0(R, *a):
            u = tail(R.val(a[0]))
            return None, result(I3, u)
        f("se3 %s without rotation translates" % sfx, "se3_" + sfx, se3exp0,
          args=lambda R, fn: [R.ref(mat(6, 1, [ZERO] * 3 + [atom(R.name("u%d" % i)) for i in range(3)]))] +
          [R.param(fn, i) for i in range(1, len(fn["params"]))])

    def aalog(R, m):
        return mat(3, 1, [mul(app("aa_angle", m), app("aa_axis", m, i)) for i in range(3)])

    def so3log(R, a):
        return FALSE, val(aalog(R, rot(R, a))), given(R, a)
    f("so3 logarithm is angle times axis", "so3_log", so3log)

    def se3log(R, a):
        approx(R)
        w = aalog(R, rot(R, a))
        t = tr(R, a)
        s = nsum(mul(x, x) for x in w.a[2])
        th = sqrt(s)
        k = div(sub(ONE, div(mul(th, fun("sin", th)), mul(num(2), sub(ONE, fun("cos", th))))), s)
        wt = E.ecross(w, t)
        wwt = E.ecross(w, wt)
        u = mat(3, 1, [add(sub(t.a[2][i], mul(HALF, wt.a[2][i])), mul(k, wwt.a[2][i])) for i in range(3)])

        def post(R, r):
            v = R.val(r)
            return [("rotational part", head(v), w), ("translational part", tail(v), u)]
        return FALSE, post, b_and(given(R, a), c_gt(s, ZERO))
    f("se3 logarithm", "se3_log", se3log)

    def expdiff(R, v):
        approx(R)
        w = R.val(v)
        s = nsum(mul(x, x) for x in w.a[2])
        A, B, C = closed(s)
        K = skew(w)
        out = []
        for i in range(3):
            for j in range(3):
                e = add(mul(B, K.a[2][3 * i + j]), mul(C, mul(w.a[2][i], w.a[2][j])))
                out.append(add(e, A) if i == j else e)
        return FALSE, val(mat(3, 3, out)), c_gt(s, ZERO)
    f("derivative of the so3 exponential", "so3_exp_diff", expdiff)
    run_interp(ctx)


def run_interp(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **kw)

    # interpolation is exp of the scaled logarithm: compared abstractly
    for n, key in (("so3", SO3), ("se3", SE3)):
        for sfx in ("interp", "interp_f"):
            def itp(R, a, t, *fr):
                g = rec_get(R.val(a), "g")
                e = M.g_exp(mul(M.g_log(g), t))
                return None, lambda R, r: [("interpolated transform", rec_get(R.val(r), "g"), e)]
            from .. import contracts as CTm
            con = CTm.contracts()
            con.pop(key + "::interp", None)
            f("%s %s is exp of the scaled log" % (n, sfx), n + "_" + sfx, itp,
              mode=Mode(abs_group=True, abs_vec=True), contracts=con)

    def alen(R, a):
        v = R.call(P + "se3_log", a)
        t = tail(R.val(v))
        return None, lambda R, r: [("arc length", r, sqrt(nsum(mul(x, x) for x in t.a[2])))], given(R, a)
    f("arc length is the length of the translational part of the logarithm", "se3_arc_length", alen)
