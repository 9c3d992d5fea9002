"""Contracts of the rigid-transform classes, used when they are analysed abstractly.

A transform is {into_, from_, g}: g lives in a free group with exp/log/Ad/bracket
normalised by the Lie-group laws.  The contracts are themselves obligations checked
against the source (specs/transforms.py).
"""
from .values import *
from .interp import lift_struct
from . import models as M

SE3, SO3 = M.GROUPS
ASSERT = "resim::AssertException"


def exc_assert():
    return T("exc", strc(ASSERT), VOID)


def null_of(fr):
    """frame record -> is null"""
    idv = fr
    while idv.tag == "rec":
        idv = idv.a[1][0][1]
    zero = seq([("one", TRUE, ZERO)] * 16)
    return c_eq(idv, zero)


def framed(x):
    return b_not(null_of(rec_get(x, "into_")))


def mk(I, key, g, into, frm):
    return rec(key, {"into_": into, "from_": frm, "g": g})


def mk_checked(I, key, g, frames, node):
    if not frames:
        nf = M.null_frame(I)
        return mk(I, key, g, nf, nf)
    into, frm = frames
    I.throw(exc_assert(), b_xor(null_of(into), null_of(frm)))
    return mk(I, key, g, into, frm)


def dof(key):
    return 6 if key == SE3 else 3


def vec_in(I, v):
    if I.mode.abs_vec:
        return v
    return M.vec_term(v)


def vec_out(I, t, n):
    if I.mode.abs_vec:
        return t
    return M.vec_coords(I, t, n)


def g_of(x):
    return rec_get(x, "g")


def mk_se3(r, t):
    def leaf(x, y):
        if x.tag == "t" and x.a[0] == "rot" and y is atom(T("trans", x.a[1])):
            return x.a[1]
        if x is M.G_E and y is ZERO:
            return M.G_E
        return T("mkse3", x, y)
    return lift(leaf, r, t)


def rot_of(g):
    def leaf(x):
        if x is M.G_E:
            return x
        if x.tag == "t" and x.a[0] == "mkse3":
            return x.a[1]
        return T("rot", x)
    return lift(leaf, g)


def trans_of(I, g):
    def leaf(x):
        if x is M.G_E:
            return ZERO
        if x.tag == "t" and x.a[0] == "mkse3":
            return x.a[2]
        return atom(M.mark_vec(T("trans", x)))
    return lift(leaf, g)


def arclen_of(g):
    def leaf(x):
        if x is M.G_E:
            return ZERO
        y = M.g_inv(x)
        z = x if x.id < y.id else y
        n = T("arclen", z)
        mark_nonneg(n)
        return atom(n)
    return lift(leaf, g)


def contracts():
    C = {}

    def V_(I, x):
        return M.val(I, x)

    def isgrp(v):
        return v.tag == "rec" and v.a[0] in M.GROUPS

    def isframe(v):
        return v.tag == "rec" and v.a[0].startswith("resim::transforms::Frame<")

    def isfv(v):
        return v.tag == "rec" and v.a[0].startswith("resim::transforms::FramedVector<")

    def ctor(key):
        def f(I, node, this, args):
            av = [V_(I, a) for a in args]
            if not av:
                return M.default_record(I, [], {"r": key, "s": key}, False)
            if len(av) == 1 and isgrp(av[0]) and av[0].a[0] == key:
                return av[0]
            frames = [a for a in av if isframe(a)]
            rest = [a for a in av if not isframe(a)]
            if key == SE3:
                g = M.G_E
                t = ZERO
                for a in rest:
                    if isgrp(a):
                        g = g_of(a)
                    else:
                        t = vec_in(I, a)
                gg = mk_se3(g, t)
            else:
                if len(rest) == 1:
                    r0 = M.flatten(rest[0])
                    if r0.tag == "mat" and r0 is M.eident(3):
                        gg = M.G_E
                    else:
                        gg = lift(lambda x: x.a[1] if x.tag == "t" and x.a[0] == "rotmat" else T("mkso3", x), r0)
                else:
                    gg = lift(lambda *x: T("mkso3", *x), *[M.flatten(x) for x in rest])
            return mk_checked(I, key, gg, frames, node)
        return f

    def identity(key):
        def f(I, node, this, args):
            return mk_checked(I, key, M.G_E, [V_(I, a) for a in args], node)
        return f

    def compose(key):
        def f(I, node, this, args):
            a, b = V_(I, this), V_(I, args[0])
            if a.tag != "rec":
                return NotImplemented
            if not (isgrp(b)):
                if isfv(b):
                    b = rec_get(b, "$base")
                v = vec_in(I, b)
                return vec_out(I, act(I, key, g_of(a), v), 3)
            fa, fb = framed(a), framed(b)
            both = b_and(fa, fb)
            mismatch = b_not(c_eq(rec_get(a, "from_"), rec_get(b, "into_")))
            I.throw(exc_assert(), b_and(both, mismatch))
            nf = M.null_frame(I)
            return mk(I, key, M.g_mul(g_of(a), g_of(b)), merge(both, rec_get(a, "into_"), nf),
                      merge(both, rec_get(b, "from_"), nf))
        return f

    def act(I, key, g, v):
        def leaf(x, y):
            if x is M.G_E:
                return y
            return atom(M.mark_vec(T("act:" + key.split("::")[-1], x, y)))
        return lift(leaf, g, v)

    def rotate(key):
        def f(I, node, this, args):
            a, b = V_(I, this), V_(I, args[0])
            g = g_of(a)
            gr = rot_of(g) if key == SE3 else g
            if isfv(b):
                I.throw(exc_assert(), b_not(framed(a)))
                I.throw(exc_assert(), b_not(c_eq(rec_get(a, "from_"), rec_get(b, "frame_"))))
                v = act(I, SO3, gr, vec_in(I, rec_get(b, "$base")))
                return rec(b.a[0], {"$base": vec_out(I, v, 3), "frame_": rec_get(a, "into_")})
            return vec_out(I, act(I, SO3, gr, vec_in(I, b)), 3)
        return f

    def inverse(key):
        def f(I, node, this, args):
            a = V_(I, this)
            return mk(I, key, M.g_inv(g_of(a)), rec_get(a, "from_"), rec_get(a, "into_"))
        return f

    def interp(key):
        def f(I, node, this, args):
            a = V_(I, this)
            fr = V_(I, args[0])
            if I.mode.abs_vec:
                g = M.g_exp(mul(M.g_log(g_of(a)), fr))
            else:
                g = lift(lambda x, y: M.G_E if y is ZERO else x if y is ONE else T("ginterp", x, y), g_of(a), fr)
            if len(args) == 1:
                return mk(I, key, g, rec_get(a, "into_"), rec_get(a, "from_"))
            nf = V_(I, args[1])
            I.throw(exc_assert(), b_not(framed(a)))
            return mk_checked(I, key, g, [rec_get(a, "into_"), nf], node)
        return f

    def exp(key):
        def f(I, node, this, args):
            av = [V_(I, a) for a in args]
            return mk_checked(I, key, M.g_exp(vec_in(I, av[0])), av[1:], node)
        return f

    def log(key):
        def f(I, node, this, args):
            a = V_(I, this)
            if I.mode.abs_vec:
                return M.g_log(g_of(a))
            return vec_out(I, lift(lambda x: ZERO if x is M.G_E else x.a[1] if x.tag == "t" and x.a[0] == "gexp" else T("glog", x), g_of(a)), dof(key))
        return f

    def adjoint(key):
        def f(I, node, this, args):
            if this is None or args:
                return appt("admat", vec_in(I, V_(I, args[0])))
            return appt("Admat", g_of(V_(I, this)))
        return f

    def adjoint_times(key):
        def f(I, node, this, args):
            av = [V_(I, a) for a in args]
            if len(av) == 2:
                if I.mode.abs_vec:
                    return M.g_brk(av[0], av[1])
                return vec_out(I, appt("brk", vec_in(I, av[0]), vec_in(I, av[1])), dof(key))
            g = g_of(V_(I, this))
            if I.mode.abs_vec:
                return M.g_Ad(g, av[0])
            return vec_out(I, appt("Ad", g, vec_in(I, av[0])), dof(key))
        return f

    def approx_t(I, a, b):
        def leaf(x, y):
            if x is y:
                return TRUE
            x, y = sorted((x, y), key=lambda z: z.id)
            return lit(mk_atom("b", T("gApprox", x, y)))
        return lift(leaf, g_of(a), g_of(b))

    def is_approx(key, frames):
        def f(I, node, this, args):
            a, b = V_(I, this), V_(I, args[0])
            r = approx_t(I, a, b)
            if frames:
                r = b_and(r, b_and(c_eq(rec_get(a, "into_"), rec_get(b, "into_")), c_eq(rec_get(a, "from_"), rec_get(b, "from_"))))
            return r
        return f

    def rotation(I, node, this, args):
        a = V_(I, this)
        nf = M.null_frame(I)
        return ptr(I.alloc(mk(I, SO3, rot_of(g_of(a)), nf, nf), "rot"))

    def translation(I, node, this, args):
        a = V_(I, this)
        return ptr(I.alloc(vec_out(I, trans_of(I, g_of(a)), 3), "trans"))

    def arc_length(I, node, this, args):
        return arclen_of(g_of(V_(I, this)))

    def rotation_matrix(I, node, this, args):
        a = V_(I, this)
        return ptr(I.alloc(lift(lambda x: T("rotmat", x), g_of(a)), "rm"))

    def quaternion(I, node, this, args):
        a = V_(I, this)
        return appt("quatof", g_of(a))

    def dist(which):
        def f(I, node, this, args):
            a, b = V_(I, args[0]), V_(I, args[1])
            I.throw(exc_assert(), b_not(c_eq(rec_get(a, which), rec_get(b, which))))
            x, y = trans_of(I, g_of(a)), trans_of(I, g_of(b))
            return lift(lambda u, w: _normd(u, w), x, y)
        return f

    def _normd(u, w):
        if u is w:
            return ZERO
        d = nsub(u, w)
        if d.a[-1][1] < 0:
            d = nneg(d)
        n = T("norm", d)
        mark_nonneg(n)
        return atom(n)

    def frame_get(n):
        def f(I, node, this, args):
            return ptr(I.alloc(rec_get(V_(I, this), n), "frame"))
        return f

    def is_framed(I, node, this, args):
        a = V_(I, this)
        return b_not(b_or(null_of(rec_get(a, "into_")), null_of(rec_get(a, "from_"))))

    def verify(*ns):
        def f(I, node, this, args):
            a = V_(I, this)
            r = TRUE
            for n, x in zip(ns, args):
                r = b_and(r, c_eq(rec_get(a, n), V_(I, x)))
            return r
        return f

    def wrap(fn, on_this):
        """apply only to group-shaped receivers; anything else stays unmodelled"""
        def f(I, node, this, args):
            obj = this if on_this else None
            if obj is not None and not isgrp(V_(I, obj)):
                return I.unk("transform operation on an unmodelled object", node)
            try:
                return fn(I, node, this, args)
            except (TypeError, AttributeError):
                return I.unk("transform operation on unmodelled arguments", node)
        return f
    for key in M.GROUPS:
        n = key.split("::")[-1]
        C[key + "::" + n] = ctor(key)
        C[key + "::identity"] = identity(key)
        C[key + "::operator*"] = compose(key)
        C[key + "::rotate"] = rotate(key)
        C[key + "::inverse"] = inverse(key)
        C[key + "::interp"] = interp(key)
        C[key + "::exp"] = exp(key)
        C[key + "::log"] = log(key)
        C[key + "::adjoint"] = adjoint(key)
        C[key + "::adjoint_times"] = adjoint_times(key)
        C[key + "::is_approx"] = is_approx(key, True)
        C[key + "::is_approx_transform"] = is_approx(key, False)
        C[key + "::arc_length"] = arc_length
    for b in ("resim::transforms::LieGroup<3, 3>", "resim::transforms::LieGroup<3, 6>"):
        C[b + "::into"] = frame_get("into_")
        C[b + "::from"] = frame_get("from_")
        C[b + "::is_framed"] = is_framed
        C[b + "::verify_into"] = verify("into_")
        C[b + "::verify_from"] = verify("from_")
        C[b + "::verify_frames"] = verify("into_", "from_")
    C[SE3 + "::rotation"] = rotation
    C[SE3 + "::translation"] = translation
    C[SO3 + "::rotation_matrix"] = rotation_matrix
    C[SO3 + "::quaternion"] = quaternion
    C["resim::transforms::se3_distance"] = dist("from_")
    C["resim::transforms::se3_inverse_distance"] = dist("into_")
    return {k: wrap(v, not k.endswith(('::SE3', '::SO3', 'distance'))) for k, v in C.items()}
