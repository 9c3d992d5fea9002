"""Gaussian sampling, sample statistics and random matrices."""
from ..values import *
from ..spec import *
from .. import values as VV
from .. import models as M
from .frames import P


def smat(n, R, C, sym_=False):
    e = lambda r, c: atom(sym("%s%d%d" % (n, min(r, c), max(r, c)) if sym_ else "%s%d%d" % (n, r, c)))
    return mat(R, C, [e(r, c) for r in range(R) for c in range(C)])


def dims_args(D, n=None, R_=None):
    def args(R, fn):
        R.mu_, R.cov_ = smat("mu", D, 1), smat("cov", D, D)
        return [R.ref(R.mu_), R.ref(R.cov_)] + ([num(n)] if n is not None else [])
    return args


# ---------------------------------------------------------------- moments of expressions in random draws
from fractions import Fraction as F
DRAWS = {"std-normal": (ZERO, ONE), "std-uniform": (num(F(1, 2)), num(F(1, 12)))}      # mean and variance


def is_draw(v):
    return v.tag == "t" and v.a[0] in DRAWS


def mentions_draw(v, memo=None):
    memo = {} if memo is None else memo
    if v.id in memo:
        return memo[v.id]
    memo[v.id] = False
    if is_draw(v):
        r = True
    elif v.tag == "num":
        r = any(mentions_draw(VV.BYID[i], memo) for m, _ in v.a for i, _e in m)
    else:
        r = any(mentions_draw(x, memo) for x in _subvalues(v))
    memo[v.id] = r
    return r


def _subvalues(v):
    out = []

    def walk(a):
        if isinstance(a, VV.V):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                walk(x)
    walk(v.a if isinstance(v.a, tuple) else ())
    return out


def linear(x):
    """leaf polynomial -> (constant part, {draw: coefficient}) or None when it is not linear in the draws"""
    if x.tag != "num":
        return None
    const, co = {}, {}
    for m, c in x.a:
        ds = [(i, e) for i, e in m if mentions_draw(VV.BYID[i])]
        if not ds:
            const[m] = c
            continue
        if len(ds) > 1 or ds[0][1] != 1 or not is_draw(VV.BYID[ds[0][0]]):
            return None
        rest = tuple(p for p in m if p != ds[0])
        d = co.setdefault(ds[0][0], {})
        d[rest] = d.get(rest, 0) + c
    return VV._num(const), {k: VV._num(v) for k, v in co.items()}


def moment1(x):
    def leaf(v):
        l = linear(v)
        if l is None:
            return VV.unk("not linear in the draws") if hasattr(VV, "unk") else T("nonlinear", v)
        r = l[0]
        for k, c in l[1].items():
            r = add(r, mul(c, DRAWS[VV.BYID[k].a[0]][0]))
        return r
    return lift(leaf, x)


def moment2(x, y):
    """covariance of two expressions in the draws"""
    def leaf(u, v):
        a, b = linear(u), linear(v)
        if a is None or b is None:
            return T("nonlinear", u, v)
        r = ZERO
        for k, c in a[1].items():
            if k in b[1]:
                r = add(r, mul(mul(c, b[1][k]), DRAWS[VV.BYID[k].a[0]][1]))
        return r
    return lift(leaf, x, y)


def entries(m):
    return m.a[2] if m.tag == "mat" else None


def flat_mats(v):
    """the matrices of a list of matrices, or of one"""
    if v.tag == "mat":
        return [v]
    if v.tag == "seq" and all(p[0] == "one" and p[1] is TRUE for p in v.a):
        return [p[2] for p in v.a]
    return None


def decomposition(R, D):
    """clipped eigenvalues and eigenvectors of the covariance given, as the solver returns them"""
    fm = R.cov_
    lam = [atom(T("eigenvalue", fm, num(i))) for i in range(D)]
    vec = [[atom(T("eigenvector", fm, num(j), num(i))) for j in range(D)] for i in range(D)]     # vec[row][column]
    clip = [ite(c_lt(ZERO, l), l, ZERO) for l in lam]
    return lam, clip, vec


def invalid(R, D):
    lam, _, _ = decomposition(R, D)
    es = R.cov_.a[2]
    key = lambda xs: sorted(xs, key=lambda z: z.id)
    mx, mn = (lift(lambda *x, n=n: atom(T(n, *key(x))), *es) for n in ("maxCoeff", "minCoeff"))
    low = lift(lambda *x: atom(T("minCoeff", *key(x))), *lam)
    tol = mul(num(F(1, 10**15)), sub(mx, mn))
    tol = ite(c_lt(tol, num(F(1, 10**15))), num(F(1, 10**15)), tol)
    asym = b_not(M.is_approx(R.I, R.cov_, M.etrans(R.cov_)))
    broken = c_eq(app("info", T("eig", R.cov_)), ONE, True)
    return b_or(asym, b_or(broken, c_le(low, neg(tol))))


def run_gauss(ctx):
    dims = (1, 2) if ctx.tier == "quick" else (1, 2, 3)

    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **kw)
    for D in dims:
        lab = "%d-dimensional" % D

        def make(R, mu, cov, D=D):
            _, clip, vec = decomposition(R, D)

            def post(R, r):
                g = R.ref(r)
                get = lambda q: R.val(R.call(P + "g_" + q, g))
                return [("dimensionality", get("dims"), num(D)), ("mean", get("mu"), R.mu_), ("covariance", get("cov"), R.cov_),
                        ("eigenvalues", get("eigenvalues"), mat(D, 1, clip)),
                        ("eigenvectors", get("eigenvectors"), mat(D, D, [vec[i][j] for i in range(D) for j in range(D)])),
                        ("roots", get("roots"), mat(D, D, [sqrt(clip[i]) if i == j else ZERO for i in range(D) for j in range(D)]))]
            return invalid(R, D), post
        f("a %s distribution keeps its parameters and decomposition, and rejects invalid covariances" % lab, "g_make", make, args=dims_args(D))

        def sampled(n, D=D):
            def spec(R, mu, cov, *_):
                _, clip, vec = decomposition(R, D)
                S = [[nsum(mul(mul(vec[a][k], vec[b][k]), clip[k]) for k in range(D)) for b in range(D)] for a in range(D)]

                def post(R, r):
                    ms = flat_mats(R.val(r))
                    if ms is None or any(m.tag != "mat" for m in ms):
                        return [("samples", R.val(r), T("matrix"))]
                    rows, out = [], []
                    for m in ms:
                        h, w, en = m.a
                        out.append(("shape", mat(1, 2, [num(h), num(w)]), mat(1, 2, [num(n), num(D)])))
                        rows += [en[i * w:(i + 1) * w] for i in range(h)]
                    if any(len(x) != D for x in rows):
                        return out
                    for i, x in enumerate(rows):
                        for a in range(D):
                            out.append(("mean of coordinate %d of sample %d" % (a, i), moment1(x[a]), R.mu_.a[2][a]))
                        for j, y in enumerate(rows[:i + 1]):
                            for a in range(D):
                                for b in range(D):
                                    out.append(("covariance of coordinates %d of sample %d and %d of sample %d" % (a, i, b, j),
                                                moment2(x[a], y[b]), S[a][b] if i == j else ZERO))
                    return out
                return invalid(R, D), post
            return spec
        if D > 2:
            continue
        for n in (0, 1, 2) if ctx.tier == "quick" else (0, 1, 2, 3, 4):
            f("%d samples of a %s distribution have its moments and are independent" % (n, lab), "g_samples", sampled(n), args=dims_args(D, n))
        f("later samples of a %s distribution are independent of earlier ones" % lab, "g_twice", sampled(2), args=dims_args(D, 2))
        f("single samples of a %s distribution have its moments and are independent" % lab, "g_sample", sampled(1), args=dims_args(D))
    for (m, c, d) in ((2, 1, 2), (1, 2, 2), (2, 2, 1), (1, 1, 2), (2, 3, 3), (0, 1, 1)):
        def wrong(R, fn, m=m, c=c, d=d):
            return [R.ref(smat("mu", m, 1)), R.ref(smat("cov", c, d))]
        f("a mean of %d and a covariance of %d by %d are rejected" % (m, c, d), "g_make", lambda R, mu, cov: (TRUE, None), args=wrong)


def run_stats(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **kw)
    N = ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)) if ctx.tier == "quick" else ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 3))
    for n, d in N:
        X = smat("x", n, d)
        x = lambda i, a: X.a[2][i * d + a]
        mean = [div(nsum(x(i, a) for i in range(n)), num(n)) for a in range(d)]
        args = lambda R, fn: [R.ref(X)]
        f("mean of %d samples of dimension %d" % (n, d), "n_mean", lambda R, s: (FALSE, lambda R, r: [("mean", R.val(r), mat(d, 1, mean))]), args=args)
        if n == 1:
            f("covariance of 1 sample of dimension %d is rejected" % d, "n_cov", lambda R, s: (TRUE, None), args=args)
            continue
        cov = [div(nsum(mul(sub(x(i, a), mean[a]), sub(x(i, b), mean[b])) for i in range(n)), num(n - 1)) for a in range(d) for b in range(d)]
        f("covariance of %d samples of dimension %d" % (n, d), "n_cov", lambda R, s: (FALSE, lambda R, r: [("covariance", R.val(r), mat(d, d, cov))]), args=args)
    f("covariance of no samples is rejected", "n_cov", lambda R, s: (TRUE, None), args=lambda R, fn: [R.ref(mat(0, 2, []))])


def run_random(ctx):
    def f(name, q, spec, **kw):
        ctx.function(name, P + q, spec, **kw)

    def indep(mean, var):
        def spec(R, rng, *a):
            mu, s2 = (mean, var) if a == () else (a[0], mul(a[1], a[1]))

            def post(R, r):
                ms = flat_mats(R.val(r))
                if ms is None or any(m.tag != "mat" for m in ms):
                    return [("matrices", R.val(r), T("matrix"))]
                xs = [x for m in ms for x in m.a[2]]
                out = []
                for i, x in enumerate(xs):
                    out.append(("mean of entry %d" % i, moment1(x), mu))
                    for j in range(i + 1):
                        out.append(("covariance of entries %d and %d" % (i, j), moment2(x, xs[j]), s2 if i == j else ZERO))
                return out
            return FALSE, post
        return spec
    third = num(F(1, 3))
    f("random vectors have independent uniform entries between -1 and 1, fresh each time", "r_vector", indep(ZERO, third))
    f("random matrices have independent uniform entries between -1 and 1, fresh each time", "r_matrix", indep(ZERO, third))
    f("random vectors follow the distribution given", "r_given", indep(None, None))
