"""Frames of framed vectors; identity of frames."""
from ..values import *
from ..spec import *
from .. import models as M
from .frames import P, nullf, nullframe


def run(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **kw)

    def fr(R, x):
        return R.m(x, "frame")

    def vec(R, x):
        return R.m(x, "vector")

    def is_(frame, v):
        return lambda R, r: [("frame of the result", fr(R, r), frame), ("vector of the result", vec(R, r), v)]
    f("framed vector from vector and frame", "fv_make", lambda R, v, fr_: (FALSE, is_(R.val(fr_), R.val(v))))
    f("sum of framed vectors", "fv_add", lambda R, a, b: (
        b_not(c_eq(fr(R, a), fr(R, b))), is_(fr(R, a), M.mmap(add, vec(R, a), vec(R, b)))))
    f("sum with an unframed vector", "fv_add_v", lambda R, a, b: (
        FALSE, lambda R, r, e=M.mmap(add, vec(R, a), R.val(b)): [("sum", R.val(r), e)]))
    f("framed vector times scalar", "fv_scale", lambda R, a, d: (
        FALSE, is_(fr(R, a), M.mmap(lambda x: mul(x, d), vec(R, a)))))
    f("scalar times framed vector", "fv_scale_l", lambda R, d, a: (
        FALSE, is_(fr(R, a), M.mmap(lambda x: mul(x, d), vec(R, a)))))

    def eq(R, a, b):
        return b_and(c_eq(vec(R, a), vec(R, b)), c_eq(fr(R, a), fr(R, b)))
    f("equality compares vector and frame", "fv_eq", lambda R, a, b: (
        FALSE, lambda R, r, e=eq(R, a, b): [("equality", r, e)]))
    f("inequality compares vector and frame", "fv_ne", lambda R, a, b: (
        FALSE, lambda R, r, e=b_not(eq(R, a, b)): [("inequality", r, e)]))

    def ap(R, a, b):
        e = b_and(M.is_approx(R.I, vec(R, a), vec(R, b)), c_eq(fr(R, a), fr(R, b)))
        return FALSE, lambda R, r: [("approximate equality", r, e)]
    f("approximate equality compares vector and frame", "fv_approx", ap)
    f("approximate equality of modifiable framed vectors compares vector and frame", "fv_approx_lv", ap)
    f("approximate equality with a plain vector", "fv_approx_v", lambda R, a, b: (
        FALSE, lambda R, r, e=M.is_approx(R.I, vec(R, a), R.val(b)): [("approximate equality", r, e)]))
    def app(R, a, b, p):
        e = b_and(M.is_approx(R.I, vec(R, a), vec(R, b), R.val(p)), c_eq(fr(R, a), fr(R, b)))
        return FALSE, lambda R, r: [("approximate equality", r, e)]
    f("approximate equality with a tolerance compares vector and frame", "fv_approx_p", app)
    f("approximate equality with a tolerance of modifiable framed vectors compares vector and frame", "fv_approx_lvp", app)
    f("approximate equality with a plain vector and a tolerance", "fv_approx_vp", lambda R, a, b, p: (
        FALSE, lambda R, r, e=M.is_approx(R.I, vec(R, a), R.val(b), R.val(p)): [("approximate equality", r, e)]))
    f("set_frame changes only the frame", "fv_set_frame", lambda R, a, g: (
        FALSE, lambda R, r, e=(R.val(g), vec(R, a)): is_(*e)(R, a)))
    f("copy of a framed vector", "fv_copy", lambda R, a: (FALSE, is_(fr(R, a), vec(R, a))))
    f("assignment of a framed vector", "fv_assign", lambda R, a, b: (
        FALSE, lambda R, r, e=(fr(R, b), vec(R, b)): is_(*e)(R, a)))
    f("equality of frames is equality of identifiers", "frame_eq", lambda R, a, b: (
        FALSE, lambda R, r, e=c_eq(R.m(a, "id"), R.m(b, "id")): [("equality", r, e)]))
    f("inequality of frames", "frame_ne", lambda R, a, b: (
        FALSE, lambda R, r, e=b_not(c_eq(R.m(a, "id"), R.m(b, "id"))): [("inequality", r, e)]))
    for q in ("frame_null", "frame_default"):
        f("%s is null" % q, q, lambda R: (FALSE, lambda R, r: [("frame", R.val(r), nullframe(R))]))
    f("a frame is null exactly when its identifier is zero", "frame_is_null", lambda R, a: (
        FALSE, lambda R, r, e=nullf(R.val(a)): [("null", r, e)]))
    f("frame from identifier", "frame_of", lambda R, i: (
        FALSE, lambda R, r, e=R.val(i): [("identifier", R.m(r, "id"), e)]))

    def fresh(R, v):
        """is the identifier the result of a generator call, not a constant or an input"""
        while v.tag == "rec":
            v = v.a[1][0][1]
        ok = v.tag == "t" and str(v.a[0]).startswith("fresh-uuid")
        return TRUE if ok else (FALSE if v.tag in ("seq", "sym") else bvar(unk("identifier not recognised")))
    f("new frames get a freshly generated identifier", "frame_new", lambda R: (
        FALSE, lambda R, r: [("freshly generated", fresh(R, R.val(r)), TRUE)]))
    f("framed vector without frame gets a new frame", "fv_make_new", lambda R, v: (
        FALSE, lambda R, r, e=R.val(v): [("freshly generated", fresh(R, fr(R, r)), TRUE), ("vector", vec(R, r), e)]))
