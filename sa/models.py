"""Models of library types and calls (Eigen, std, protobuf, libuuid, fmt, glog)."""
import os
from .values import *
from . import values as VV
from .interp import (seq_size, seq_at, seq_push, seq_concat, lift_struct, as_parts, ELEM, Dead, T as _T, mk_first,
                     mk_exists, norm_map, size_op)
from . import frontend, protofiles

_pb = {}


def pb_msgs():
    if "m" not in _pb:
        _pb["m"], _pb["e"] = protofiles.load(frontend.REPO)
    return _pb["m"]


GROUPS = ("resim::transforms::SE3", "resim::transforms::SO3")


def is_group(v):
    return v.tag == "rec" and v.a[0] in GROUPS and rec_get(v, "g") is not None


def is_string(v):
    return v.tag == "str" or (v.tag == "t" and v.a[0] in ("strcat", "string")) or v.id in STRINGS


STRINGS = set()


def strip(T_, d):
    while d["k"] in ("lref", "rref"):
        d = T_[d["p"]]
    return d


def tpl(d):
    return d.get("tpl") or d.get("r") or d.get("s", "")


def targ(T_, d, i):
    a = d["ta"][i]
    if "t" in a:
        return a["t"]
    return int(a["i"])


def eigen_dims(T_, d):
    """(rows, cols) of a plain Eigen matrix type, None if not one or dynamic"""
    if d.get("tpl") == "Eigen::Matrix":
        r, c = targ(T_, d, 1), targ(T_, d, 2)
        return r, c
    return None


# ------------------------------------------------------------------ record hooks
def field_hook(I, x, name):
    return None


def field_write_hook(I, x, name, val):
    return None


def mat_entry(I, v, r, c):
    if v.tag == "mat":
        return v.a[2][r * v.a[1] + c]
    return lift(lambda x: atom(T("el", x, r, c)), v)


def abs_block(I, x, st, node):
    r0, c0, h, w = st[1:]
    if I.mode.abs_vec:
        return lift(lambda y: v_block(y, r0, c0, h, w), x)
    return mat(h, w, [atom(T("el", x, r0 + r, c0 + c)) for r in range(h) for c in range(w)])


def abs_block_write(I, v, st, val, node):
    r0, c0, h, w = st[1:]
    if I.mode.abs_vec and val is not None and (c0, h, w) == (0, 3, 1) and r0 in (0, 3):
        # a vector of six coordinates is the sum of its two halves, each put in its place
        def put(y, z):
            y, z = tonum(y), tonum(z)
            if v_terms(y) is None or v_terms(z) is None or any(q.tag not in ("num",) for q in (y, z)):
                return I.unk("block write into opaque matrix", node)
            return nadd(nsub(y, v_embed(v_block(y, r0, 0, 3, 1), r0)), v_embed(z, r0))
        return lift(put, v, val)
    return I.unk("block write into opaque matrix", node)


EMBEDS = [False]


def v_block(y, r0, c0, h, w):
    """rows r0.. of an opaque vector; linear"""
    if (c0, h, w) != (0, 3, 1):
        return atom(T("blk", y, r0, c0, h, w))
    y = tonum(y)
    ts = v_terms(y)
    if ts is None:
        return atom(T("blk", y, r0, c0, h, w))
    r = ZERO
    for s, x in ts:
        if x.tag == "t" and x.a[0] == "emb":
            if x.a[2] == r0:
                r = nadd(r, nmul(s, atom(x.a[1])))
            elif abs(x.a[2] - r0) < 3:
                r = nadd(r, nmul(s, atom(mark_vec(T("blk", x, r0, c0, h, w)))))
        else:
            r = nadd(r, nmul(s, atom(mark_vec(T("blk", x, r0, c0, h, w)))))
    return r


def v_embed(z, r0):
    EMBEDS[0] = True
    r = ZERO
    for s, x in v_terms(tonum(z)):
        r = nadd(r, nmul(s, atom(mark_vec(T("emb", x, r0)))))
    return r


def has_embed(v):
    return EMBEDS[0] and (any(has_embed(x) for x in v.a[1:]) if v.tag == "dec" else v.tag == "num" and any(
        BYID[a].tag == "t" and BYID[a].a[0] == "emb" for m, _ in v.a for a, _ in m))


def split_halves(v):
    """write an opaque six-vector as its halves"""
    def leaf(y):
        if y.tag != "num":
            return y
        ts = v_terms(y)
        if ts is None:
            return y
        r = ZERO
        for s, x in ts:
            if x.tag == "t" and x.a[0] == "emb":
                r = nadd(r, nmul(s, atom(x)))
            else:
                for k in (0, 3):
                    r = nadd(r, nmul(s, v_embed(v_block(atom(x), k, 0, 3, 1), k)))
        return r
    return lift(leaf, v)


VV.HALVES = (has_embed, split_halves)


CHRONO = ("std::chrono::duration", "std::chrono::time_point")


def sym_record(I, T_, d, base):
    t = tpl(d)
    dims = eigen_dims(T_, d)
    if dims:
        R, C = dims
        if R < 0 or C < 0:
            return base
        if I.mode.abs_vec:
            if C == 1:
                mark_vec(base)
                return atom(base)
            return base
        return mat(R, C, [atom(T("el", base, r, c)) for r in range(R) for c in range(C)])
    if t == "Eigen::AngleAxis":
        ax = T("fld", base, "axis")
        if I.mode.abs_vec:
            axis = atom(mark_vec(ax))
        else:
            axis = mat(3, 1, [atom(T("el", ax, i, 0)) for i in range(3)])
        return rec("aa", {"angle": atom(T("fld", base, "angle")), "axis": axis})
    if t == "Eigen::Quaternion":
        return rec("quat", {k: atom(T("fld", base, k)) for k in "wxyz"})
    if t in CHRONO:
        if not ratio_of(I, T_, d)[1]:
            mark_int(base)
        return atom(base)
    if t in ("std::vector", "google::protobuf::RepeatedField", "google::protobuf::RepeatedPtrField", "std::deque", "std::list", "std::initializer_list"):
        et = targ(T_, d, 0)
        ELEM[base.id] = lambda b, T_=T_, et=et: I.symval(T_, et, b)
        return base
    if t == "std::array":
        et, n = targ(T_, d, 0), targ(T_, d, 1)
        if T_[et]["k"] == "int" and T_[et].get("w") == 8:
            return base
        return seq([("one", TRUE, I.symval(T_, et, T("at", base, num(i)))) for i in range(n)])
    if t == "std::optional":
        return rec("optional", {"has": bvar(T("has", base)), "v": I.symval(T_, targ(T_, d, 0), T("optv", base))})
    if t == "std::variant":
        alts = [T_[a["t"]] for a in d["ta"]]
        idx = T("vindex", base)
        mark_nonneg(idx)
        last = num(len(alts) - 1)
        return vari([a.get("r") or a["s"] for a in alts], ite(c_ge(atom(idx), last, True), last, atom(idx)),
                    [I.symval(T_, a["t"], T("alt", base, i)) for i, a in enumerate(d["ta"])])
    if t in ("std::unique_ptr", "std::shared_ptr"):
        f = {"null": bvar(T("isnull", base)), "v": I.symval(T_, targ(T_, d, 0), T("pointee", base))}
        if t == "std::shared_ptr":
            f["shared"] = TRUE
            f["null"] = bvar(T("isnull", base))
        return rec("box", f)
    if t == "std::function":
        return T("callback", base)
    if t in ("std::basic_string", "std::basic_string_view"):
        STRINGS.add(base.id)
        return base
    if t == "std::pair":
        return rec("pair", {"first": I.symval(T_, targ(T_, d, 0), T("fld", base, "first")),
                            "second": I.symval(T_, targ(T_, d, 1), T("fld", base, "second"))})
    m = pb_msgs().get(d.get("r"))
    if m is not None:
        return pb_sym(I, d["r"], base)
    if d.get("r") in GROUPS and I.mode.abs_group:
        return group_sym(I, d["r"], base)
    return None


_frame_key = "resim::transforms::Frame<3>"


def group_sym(I, key, base):
    fk = [k for k in I.prog.records if k.startswith("resim::transforms::Frame<3")]
    fr = lambda n: I.symrec(fk[0], T("fld", base, n)) if fk else T("fld", base, n)
    return rec(key, {"into_": fr("into_"), "from_": fr("from_"), "g": T("g", base)})


# ------------------------------------------------------------------ protobuf values
def pb_key(cpp):
    return "pb:" + cpp


def is_msg(v):
    return v.tag == "rec" and isinstance(v.a[0], str) and v.a[0].startswith("pb:") and v.a[0][3:] in pb_msgs()


def pb_scalar_default(ty):
    if ty in ("string", "bytes"):
        return strc("")
    if ty == "bool":
        return FALSE
    return ZERO


def pb_default(cpp):
    out = {}
    for f in pb_msgs()[cpp]:
        n = f["name"]
        if f["rep"]:
            out[n] = seq([])
        elif "cpp" in f and f["cpp"] in pb_msgs():
            out[n] = pb_default(f["cpp"])
            if not f["oneof"]:
                out["has_" + n] = FALSE
        else:
            out[n] = pb_scalar_default(f["type"])
            if f["opt"]:
                out["has_" + n] = FALSE
        if f["oneof"]:
            out["case_" + f["oneof"]] = ZERO
    return rec(pb_key(cpp), out)


def pb_sym(I, cpp, base):
    out = {}
    for f in pb_msgs()[cpp]:
        n = f["name"]
        b = T("fld", base, n)
        sub_ = "cpp" in f and f["cpp"] in pb_msgs()
        if f["rep"]:
            if sub_:
                ELEM[b.id] = lambda x, c=f["cpp"]: pb_sym(I, c, x)
            elif f["type"] == "bool":
                ELEM[b.id] = lambda x: bvar(x)
            elif f["type"] not in ("string", "bytes"):
                ELEM[b.id] = lambda x: atom(x)
            out[n] = b
            continue
        if sub_:
            out[n] = pb_sym(I, f["cpp"], b)
            if not f["oneof"]:
                out["has_" + n] = bvar(T("fld", base, "has_" + n))
        elif f["type"] in ("string", "bytes"):
            STRINGS.add(b.id)
            out[n] = b
        elif f["type"] == "bool":
            out[n] = bvar(b)
        else:
            out[n] = atom(b)
        if f["opt"]:
            out["has_" + n] = bvar(T("fld", base, "has_" + n))
        if f["oneof"]:
            c = T("fld", base, "case_" + f["oneof"])
            mark_nonneg(c)
            out["case_" + f["oneof"]] = atom(c)
    return rec(pb_key(cpp), out)


def pb_mcall(I, e, obj, cpp):
    msg = pb_msgs()[cpp]
    n = e["n"]
    byname = {f["name"]: f for f in msg}
    p = obj if I.is_ptr(obj) else ptr(I.alloc(obj, "msg"))
    av = lambda i: val(I, I.eval(e["a"][i]), e)
    if n == "Clear":
        I.store(p, pb_default(cpp), e)
        return VOID
    if n in ("CopyFrom", "MergeFrom", "operator="):
        if n == "MergeFrom":
            I.store(p, I.unk("MergeFrom", e), e)
            return VOID
        I.store(p, av(0), e)
        return p
    if n.endswith("_case") and n[:-5] in {f["oneof"] for f in msg}:
        return I.load(I.extend(p, ("f", "case_" + n[:-5])), e)
    for f in msg:
        if f["oneof"] and n == "clear_" + f["oneof"]:
            for g in msg:
                if g["oneof"] == f["oneof"]:
                    I.store(I.extend(p, ("f", g["name"])), pb_field_default(g), e)
            I.store(I.extend(p, ("f", "case_" + f["oneof"])), ZERO, e)
            return VOID
    f = byname.get(n)
    na = len(e["a"])
    if f is not None:
        fp = I.extend(p, ("f", n))
        if f["rep"] and na == 1:
            return I.extend(fp, ("i", av(0)))
        return fp if e.get("lv") else I.load(fp, e)
    for pre in ("mutable_", "set_allocated_", "set_", "add_", "has_", "clear_"):
        if n.startswith(pre) and n[len(pre):] in byname:
            f = byname[n[len(pre):]]
            nm = f["name"]
            fp = I.extend(p, ("f", nm))
            if pre == "has_":
                if f["oneof"]:
                    return c_eq(I.load(I.extend(p, ("f", "case_" + f["oneof"])), e), num(f["num"]), True)
                return I.load(I.extend(p, ("f", "has_" + nm)), e)
            if pre == "clear_":
                I.store(fp, pb_field_default(f), e)
                if not f["rep"]:
                    pb_presence(I, p, f, FALSE, msg, e)
                return VOID
            if pre == "add_":
                cur = I.load(fp, e)
                if na == 1:
                    I.store(fp, seq_push(cur, av(0)), e)
                    return VOID
                I.store(fp, seq_push(cur, pb_default(f["cpp"])), e)
                return I.extend(fp, ("i", seq_size(cur)))
            if pre == "mutable_":
                if f["rep"]:
                    return I.extend(fp, ("i", av(0))) if na == 1 else fp
                pb_presence(I, p, f, TRUE, msg, e)
                return fp
            if pre == "set_":
                if f["rep"]:
                    I.store(I.extend(fp, ("i", av(0))), av(1), e)
                    return VOID
                v = av(0)
                if na == 2:
                    v = appt("string", v, av(1))
                pb_presence(I, p, f, TRUE, msg, e)
                I.store(fp, v, e)
                return VOID
    if n.endswith("_size") and n[:-5] in byname:
        return seq_size(I.load(I.extend(p, ("f", n[:-5])), e))
    if n == "SerializeAsString":
        return appt("serialize", I.load(p, e))
    return unknown_call(I, e, [obj])


def pb_field_default(f):
    if f["rep"]:
        return seq([])
    if "cpp" in f and f["cpp"] in pb_msgs():
        return pb_default(f["cpp"])
    return pb_scalar_default(f["type"])


def pb_presence(I, p, f, on, msg, e):
    nm = f["name"]
    if f["oneof"]:
        cp = I.extend(p, ("f", "case_" + f["oneof"]))
        old = I.load(cp, e)
        same = c_eq(old, num(f["num"]), True)
        if on is TRUE:
            for g in msg:
                if g["oneof"] == f["oneof"] and g is not f:
                    I.store(I.extend(p, ("f", g["name"])), pb_field_default(g), e)
            cur = I.load(I.extend(p, ("f", nm)), e)
            I.store(I.extend(p, ("f", nm)), merge(same, cur, pb_field_default(f)), e)
            I.store(cp, num(f["num"]), e)
        else:
            I.store(cp, merge(same, ZERO, old), e)
        return
    r = I.load(p, e)
    if r.tag == "rec" and rec_get(r, "has_" + nm) is not None:
        I.store(I.extend(p, ("f", "has_" + nm)), on, e)


# ------------------------------------------------------------------ defaults
def default_record(I, T_, d, zero):
    t = tpl(d)
    dims = eigen_dims(T_, d)
    if dims:
        R, C = dims
        if R < 0 or C < 0:
            return T("emptymat")
        if I.mode.abs_vec:
            return UNDEF
        return mat(R, C, [UNDEF] * (R * C))
    if t in CHRONO:
        if t == "std::chrono::time_point" or zero:
            return ZERO
        return UNDEF
    if t in ("std::vector", "google::protobuf::RepeatedField", "google::protobuf::RepeatedPtrField", "std::deque", "std::list"):
        return seq([])
    if t == "std::priority_queue":
        return pq_new(I, T_, d)
    if t == "std::array":
        et, n = targ(T_, d, 0), targ(T_, d, 1)
        return seq([("one", TRUE, I.default_value(T_, et, zero))] * n)
    if t == "std::optional":
        return rec("optional", {"has": FALSE, "v": UNDEF})
    if t == "std::variant":
        alts = [T_[a["t"]] for a in d["ta"]]
        return vari([a.get("r") or a["s"] for a in alts], ZERO,
                    [I.default_value(T_, d["ta"][0]["t"], True)] + [UNDEF] * (len(alts) - 1))
    if t == "std::unique_ptr":
        return rec("box", {"null": TRUE, "v": UNDEF})
    if t == "std::shared_ptr":
        return rec("box", {"null": TRUE, "v": UNDEF, "shared": TRUE})
    if t in ("std::basic_string", "std::basic_string_view"):
        return strc("")
    if t == "std::function":
        return NULL
    if t in RANDOM_DIST:
        return dist_new(t, [])
    if t == "std::monostate":
        return const("monostate")
    if t in ("std::basic_ostringstream", "std::basic_stringstream"):
        return rec("stream", {"s": strc("")})
    if pb_msgs().get(d.get("r")) is not None:
        return pb_default(d["r"])
    if d.get("r") in GROUPS and I.mode.abs_group:
        nf = null_frame(I)
        return rec(d["r"], {"into_": nf, "from_": nf, "g": G_E})
    return None


def null_frame(I):
    fk = [k for k in I.prog.records if k.startswith("resim::transforms::Frame<3")]
    return I.default_construct(fk[0])


def moved_seq(I, v):
    return seq([])


# ------------------------------------------------------------------ abstract group elements
G_E = sym("e")
VECS = set()


def mark_vec(v):
    VECS.add(v.id)
    return v


def g_parts(g):
    if g is G_E:
        return []
    if g.tag == "t" and g.a[0] == "gmul":
        return list(g.a[1:])
    return [g]


def g_mul(a, b):
    def leaf(x, y):
        parts = g_parts(x)
        for q in g_parts(y):
            if parts and parts[-1] is g_inv_atom(q):
                parts.pop()
                continue
            # exp(u) exp(c u) = exp((1+c) u)
            if parts and _isexp(parts[-1]) and _isexp(q):
                c = _ratio(parts[-1].a[1], q.a[1])
                if c is not None:
                    s = nadd(parts[-1].a[1], q.a[1])
                    parts.pop()
                    ex = g_exp(s)
                    if ex is not G_E:
                        parts.append(ex)
                    continue
            parts.append(q)
        if not parts:
            return G_E
        return parts[0] if len(parts) == 1 else T("gmul", *parts)
    return lift(leaf, a, b)


def _isexp(g):
    return g.tag == "t" and g.a[0] == "gexp" and g.a[1].tag == "num"


def _ratio(u, v):
    """c with v = c u (same vector up to a scalar expression): both single vector term"""
    def split(x):
        if len(x.a) != 1:
            return None
        m, c = x.a[0]
        vs = [a for a, e in m if a in VECS]
        return vs[0] if len(vs) == 1 else None
    a, b = split(u), split(v)
    return True if a is not None and a == b else None


def g_inv_atom(g):
    if g.tag == "t" and g.a[0] == "ginv":
        return g.a[1]
    if _isexp(g):
        return g_exp(nneg(g.a[1]))
    return T("ginv", g)


def g_inv(g):
    def leaf(x):
        ps = [g_inv_atom(p) for p in reversed(g_parts(x))]
        if not ps:
            return G_E
        return ps[0] if len(ps) == 1 else T("gmul", *ps)
    return lift(leaf, g)


def g_exp(v):
    """v: vector value (Num in abstract vector mode, otherwise an opaque vector term)"""
    def leaf(x):
        if x is ZERO:
            return G_E
        if x.tag == "num" and len(x.a) == 1 and x.a[0][1] == 1 and len(x.a[0][0]) == 1 and x.a[0][0][0][1] == 1:
            t = BYID[x.a[0][0][0][0]]
            if t.tag == "t" and t.a[0] == "glog":
                return t.a[1]
        if x.tag == "num" and len(x.a) == 1 and x.a[0][1] == -1 and len(x.a[0][0]) == 1 and x.a[0][0][0][1] == 1:
            t = BYID[x.a[0][0][0][0]]
            if t.tag == "t" and t.a[0] == "glog":
                return g_inv(t.a[1])
        if x.tag == "t" and x.a[0] == "glog":
            return x.a[1]
        return T("gexp", x)
    return lift(leaf, v)


def g_log(g):
    def leaf(x):
        if x is G_E:
            return ZERO
        a, b = x, g_inv(x)
        if b.id < a.id:
            return nneg(atom(mark_vec(T("glog", b))))
        return atom(mark_vec(T("glog", a)))
    return lift(leaf, g)


def v_terms(v):
    """decompose a vector Num into (scalar Num, vector atom id)"""
    out = []
    for m, c in v.a:
        vs = [a for a, e in m if a in VECS and e == 1]
        if len(vs) != 1:
            return None
        rest = tuple(x for x in m if x[0] != vs[0])
        out.append((VV._num({rest: c}), BYID[vs[0]]))
    return out


def g_Ad(g, v):
    def leaf(x, y):
        y = tonum(y)
        ts = v_terms(y)
        if ts is None:
            return atom(mark_vec(T("Ad?", x, y)))
        r = ZERO
        for s, w in ts:
            r = nadd(r, nmul(s, Ad_atom(x, w)))
        return r
    return lift(leaf, g, v)


def Ad_atom(x, w):
    if x is G_E:
        return atom(w)
    if w.tag == "t" and w.a[0] == "brk":
        return g_brk(g_Ad(x, atom(w.a[1])), g_Ad(x, atom(w.a[2])))
    if w.tag == "t" and w.a[0] == "Ad":
        z = g_mul(x, w.a[1])
        if z is G_E:
            return atom(w.a[2])
        return atom(mark_vec(T("Ad", z, w.a[2])))
    if w.tag == "t" and w.a[0] == "glog":
        if x is w.a[1] or x is g_inv(w.a[1]):
            return atom(w)
    if _isexp(x):
        ts = v_terms(x.a[1])
        if ts is not None and all(w2 is w for _, w2 in ts):
            return atom(w)
    return atom(mark_vec(T("Ad", x, w)))


def g_brk(u, v):
    def leaf(x, y):
        x, y = tonum(x), tonum(y)
        a, b = v_terms(x), v_terms(y)
        if a is None or b is None:
            return atom(mark_vec(T("brk?", x, y)))
        r = ZERO
        for s, w in a:
            for s2, w2 in b:
                if w is w2:
                    continue
                k = nmul(s, s2)
                if w.id < w2.id:
                    r = nadd(r, nmul(k, atom(mark_vec(T("brk", w, w2)))))
                else:
                    r = nsub(r, nmul(k, atom(mark_vec(T("brk", w2, w)))))
        return r
    return lift(leaf, u, v)


def _rb_gmul(*a):
    r = G_E
    for x in a:
        r = g_mul(r, x)
    return r


VV.T_REBUILD["gmul"] = _rb_gmul
VV.T_REBUILD["ginv"] = lambda g: g_inv(g)
VV.T_REBUILD["gexp"] = lambda v: g_exp(v)
VV.T_REBUILD["glog"] = lambda g: g_log(g)


def _rb_Ad(g, w):
    return g_Ad(g, lift(_tv, w))


def _tv(w):
    if w.tag == "num":
        return w
    mark_vec(w)
    return atom(w)


VV.T_REBUILD["Ad"] = _rb_Ad
VV.T_REBUILD["brk"] = lambda u, v: g_brk(lift(_tv, u), lift(_tv, v))


# opaque vector <-> matrix of coordinates
def vec_term(v):
    """one term standing for a column vector"""
    if v.tag == "num" or v.tag == "t":
        return v
    if v.tag == "dec":
        return lift(vec_term, v)
    if v.tag == "mat":
        base = None
        for i, x in enumerate(v.a[2]):
            if x.tag == "num" and len(x.a) == 1 and x.a[0][1] == 1 and len(x.a[0][0]) == 1 and x.a[0][0][0][1] == 1:
                t = BYID[x.a[0][0][0][0]]
                if t.tag == "t" and t.a[0] == "el" and t.a[2] == i and (base is None or base is t.a[1]):
                    base = t.a[1]
                    continue
            base = False
            break
        if base:
            return base
        if all(x is ZERO for x in v.a[2]):
            return ZERO
        return lift(lambda *xs: T("vec", *xs), *v.a[2])
    return v


def vec_coords(I, t, n):
    """matrix of coordinates of an opaque vector term"""
    def leaf(x):
        if x is ZERO:
            return mat(n, 1, [ZERO] * n)
        if x.tag == "num" and len(x.a) == 1 and len(x.a[0][0]) == 1 and x.a[0][0][0][1] == 1:
            c = x.a[0][1]
            b = BYID[x.a[0][0][0][0]]
            return mat(n, 1, [nscale(atom(T("el", b, i, 0)), c) for i in range(n)])
        return mat(n, 1, [atom(T("el", x, i, 0)) for i in range(n)])
    return lift_struct(leaf, t)


# ------------------------------------------------------------------ containers and iteration
def val(I, x, node=None):
    """value denoted by an evaluated expression"""
    if x is None:
        return VOID
    if I.is_ptr(x) and not (x is NULL):
        x = I.load(x, node)
    def leaf(y):
        if y.tag == "rec" and y.a[0] == "blkref":
            r = I.load(rec_get(y, "p"), node)
            return mkarr(r) if rec_get(y, "arr") is not None else r
        return y
    if x.tag == "rec" and x.a[0] == "blkref":
        return leaf(x)
    if x.tag == "dec":
        return lift_struct(leaf, x)
    return x


def loc_of(I, x, name="tmp"):
    """a pointer to the object"""
    if I.is_ptr(x):
        v = I.load(x) if x.tag == "ptr" else None
        if v is not None and v.tag == "rec" and v.a[0] == "blkref":
            return rec_get(v, "p")
        return x
    if x.tag == "rec" and x.a[0] == "blkref":
        return rec_get(x, "p")
    return ptr(I.alloc(x, name))


def range_container(I, rp, node):
    v = I.load(rp, node)
    if v.tag == "rec" and v.a[0] == "blkref":
        return rec_get(v, "p")
    return rp


def element_ptr(I, rp, i, node):
    return I.extend(rp, ("i", i))


def mkiter(c, i):
    return rec("iter", {"c": c, "i": i})


def global_hook(I, e, g):
    n = e.get("g", "")
    if n.startswith("std::nullopt"):
        return const("nullopt")
    return None


def call_opaque(I, c, args, node):
    """call of an unknown function value: an observable effect with an unknown result"""
    vs = [val(I, a, node) for a in args]
    I.effect(T("call", c, *vs))
    return VOID


def std_base_noop(d):
    t = tpl(d)
    if t.startswith("Eigen::") and d.get("tpl") != "Eigen::Matrix":
        return False
    return False


def init_list(I, e, d):
    t = tpl(d)
    T_ = I.fr().T
    if t == "std::array":
        if not e["a"]:
            return default_record(I, T_, d, True)
        x = I.rvalue(e["a"][0])
        return x
    if t in ("std::vector",):
        return seq([("one", TRUE, I.rvalue(a)) for a in e["a"]])
    if t == "std::monostate":
        return const("monostate")
    r = I.prog.records.get(d["r"])
    if r and r.get("repo"):
        return None
    if r and r.get("fields") and not r.get("bases"):
        names = [f["name"] for f in r["fields"]]
        vals = [I.rvalue(a) for a in e["a"]]
        if len(vals) <= len(names):
            return rec(d["r"], dict(zip(names, vals)))
    if not e["a"]:
        m = default_record(I, T_, d, True)
        return m if m is not None else T("default", d["s"])
    return None


def havoc_value(I, x, u, e, seen=None):
    """everything reachable through a value handed to an unknown function may change"""
    seen = set() if seen is None else seen
    if x is None or x.id in seen:
        return
    seen.add(x.id)
    if x.tag == "ptr":
        old = I.st.store.get(x.a[0])
        if old is not None:
            havoc_value(I, old, u, e, seen)
            I.store(x, u, e)
    elif x.tag == "dec":
        havoc_value(I, x.a[1], u, e, seen)
        havoc_value(I, x.a[2], u, e, seen)
    elif x.tag == "rec":
        for _, y in x.a[1]:
            havoc_value(I, y, u, e, seen)
    elif x.tag == "seq":
        for q in x.a:
            if q[0] == "one":
                havoc_value(I, q[2], u, e, seen)
    elif x.tag == "clo":
        for y in x.a:
            havoc_any(I, y, u, e, seen)


def havoc_any(I, y, u, e, seen):
    if isinstance(y, V):
        havoc_value(I, y, u, e, seen)
    elif isinstance(y, (tuple, list)):
        for z in y:
            havoc_any(I, z, u, e, seen)
    elif isinstance(y, dict):
        for z in y.values():
            havoc_any(I, z, u, e, seen)


def carries(x):
    """does the value give access to other objects (iterators, views, closures)?"""
    if x.tag == "dec":
        return carries(x.a[1]) or carries(x.a[2])
    return x.tag == "clo" or x.tag == "rec" and x.a[0] in ("iter", "blkref", "span", "comma")


def havoc_args(I, e, args, why):
    u = unk("%s @%s" % (why, I.loc(e)))
    for a, x in zip(e.get("a", ()), args):
        if x is None:
            continue
        if x.tag == "ptr" and a.get("lv"):
            d = I.t(a["t"])
            if not d.get("const"):
                havoc_value(I, x, u, e)
            else:
                v = I.load(x)
                if carries(v):
                    havoc_value(I, v, u, e)
        elif x.tag == "ptr":
            d = I.t(a["t"])
            if d["k"] == "ptr" and not I.t(d["p"]).get("const"):
                havoc_value(I, x, u, e)
        elif carries(x):
            havoc_value(I, x, u, e)


def unknown_call(I, e, args):
    why = "library call %s" % (e.get("q") or e.get("n"))
    if e.get("k") == "MCall" and len(args) == 1 and args[0] is not None:
        obj = args[0]
        if not e.get("mconst"):
            u = unk("%s @%s" % (why, I.loc(e)))
            if I.is_ptr(obj):
                v = val(I, obj)
                if carries(v):
                    havoc_value(I, v, u, e)
                havoc_value(I, obj if obj.tag != "ptr" else loc_of(I, obj), u, e)
            else:
                havoc_value(I, obj, u, e)
        try:
            args = [I.eval(a) for a in e.get("a", ())]
        except Exception:
            args = []
        havoc_args(I, e, args, why)
    else:
        havoc_args(I, e, args, why)
    I.effects.append((I.st.pc, T("unknown-call", strc(str(e.get("q"))), unk(why))))
    return I.unk(why, e)


# ------------------------------------------------------------------ Eigen
def ismat(v):
    return v.tag == "mat"


def mmap(f, *ms):
    R, C = ms[0].a[0], ms[0].a[1]
    return mat(R, C, [f(*xs) for xs in zip(*[m.a[2] for m in ms])])


def eadd(I, a, b):
    if ismat(a) and ismat(b) and a.a[:2] == b.a[:2]:
        return mmap(add, a, b)
    if I.mode.abs_vec and numlike(a) and numlike(b):
        return add(a, b)
    return comm("e+", a, b) if I.mode.abs_vec or I.mode.abs_group else eopaque(I, "+", a, b)


def eopaque(I, op, *a):
    """an Eigen operation on operands whose entries are not known"""
    if any(x.tag == "rec" and x.a[0] == "arr" for x in a) or any(ismat(x) for x in a):
        return I.unk("Eigen " + op)
    return appt("e" + op, *a)


def comm(op, a, b):
    def leaf(x, y):
        return T(op, *sorted((x, y), key=lambda z: z.id))
    return lift(leaf, a, b)


def numlike(a):
    if a.tag == "dec":
        return numlike(a.a[1]) and numlike(a.a[2])
    return a.tag == "num"


def esub(I, a, b):
    if ismat(a) and ismat(b) and a.a[:2] == b.a[:2]:
        return mmap(sub, a, b)
    if I.mode.abs_vec and numlike(a) and numlike(b):
        return sub(a, b)
    return eopaque(I, "-", a, b) if not (I.mode.abs_vec or I.mode.abs_group) else appt("e-", a, b)


def emul(I, a, b):
    if ismat(a) and ismat(b):
        R, K, en = a.a
        K2, C, em = b.a
        if K == K2:
            return mat(R, C, [nsum(mul(en[r * K + k], em[k * C + c]) for k in range(K)) for r in range(R) for c in range(C)])
    if ismat(a) and numlike(b):
        return mmap(lambda x: mul(x, b), a)
    if ismat(b) and numlike(a):
        return mmap(lambda x: mul(a, x), b)
    if numlike(a) and numlike(b):
        return mul(a, b)
    if a.tag == "t" and a.a[0] == "Admat":
        return g_Ad(a.a[1], b)
    if a.tag == "t" and a.a[0] == "admat":
        return g_brk(a.a[1], b)
    return eopaque(I, "*", a, b) if not (I.mode.abs_vec or I.mode.abs_group) else appt("e*", a, b)


def ediv(I, a, b):
    if ismat(a):
        return mmap(lambda x: div(x, b), a)
    if numlike(a) and numlike(b):
        return div(a, b)
    return eopaque(I, "/", a, b) if not (I.mode.abs_vec or I.mode.abs_group) else appt("e/", a, b)


def edot(I, a, b):
    if ismat(a) and ismat(b):
        return nsum(mul(x, y) for x, y in zip(a.a[2], b.a[2]))
    def leaf(x, y):
        return atom(T("dot", *sorted((x, y), key=lambda z: z.id)))
    return lift(leaf, a, b)


def ecross(a, b):
    if ismat(a) and ismat(b):
        x, y = a.a[2], b.a[2]
        return mat(3, 1, [sub(mul(x[1], y[2]), mul(x[2], y[1])),
                          sub(mul(x[2], y[0]), mul(x[0], y[2])),
                          sub(mul(x[0], y[1]), mul(x[1], y[0]))])
    return lift(lambda p, q: atom(mark_vec(T("cross", p, q))), a, b)


def etrans(a):
    if ismat(a):
        R, C, en = a.a
        return mat(C, R, [en[r * C + c] for c in range(C) for r in range(R)])
    if a.tag == "t" and a.a[0] == "etrans":
        return a.a[1]
    return appt("etrans", a)


def eident(n):
    return mat(n, n, [ONE if r == c else ZERO for r in range(n) for c in range(n)])


def squared_norm(I, a):
    if ismat(a):
        return nsum(mul(x, x) for x in a.a[2])
    return lift(lambda x: _sqn(x), a)


def _sqn(x):
    n = T("norm", x if x.tag != "num" or not x.a or x.a[-1][1] > 0 else nneg(x))
    mark_nonneg(n)
    return nmul(atom(n), atom(n))


def enorm(I, a):
    if ismat(a):
        return sqrt(squared_norm(I, a))
    def leaf(x):
        if x is ZERO:
            return ZERO
        n = T("norm", x if x.tag != "num" or not x.a or x.a[-1][1] > 0 else nneg(x))
        mark_nonneg(n)
        return atom(n)
    return lift(leaf, a)


def is_approx(I, a, b, prec=None):
    """opaque, symmetric; reflexive"""
    a, b = flatten(a), flatten(b)

    def leaf(x, y):
        if x is y:
            return TRUE
        x, y = sorted((x, y), key=lambda z: z.id)
        return lit(mk_atom("b", T("isApprox", x, y) if prec is None else T("isApprox", x, y, prec)))
    return lift(leaf, a, b)


def flatten(v):
    """matrix as one opaque argument (decisions pulled to the top)"""
    if ismat(v):
        R, C, en = v.a
        return lift(lambda *xs: mat(R, C, list(xs)), *en) if any(x.tag == "dec" for x in en) else v
    if v.tag == "rec":
        fs = [x for _, x in v.a[1]]
        fs = [flatten(x) for x in fs]
        names = [k for k, _ in v.a[1]]
        return lift(lambda *xs: rec(v.a[0], dict(zip(names, xs))), *fs)
    return v


def aa_matrix(angle, axis):
    """Eigen's AngleAxis::toRotationMatrix"""
    if not ismat(axis):
        return appt("rodrigues", angle, axis)
    x, y, z = axis.a[2]
    s, c = fun("sin", angle), fun("cos", angle)
    k = sub(ONE, c)
    ax = [x, y, z]
    out = []
    for i in range(3):
        for j in range(3):
            v = mul(k, mul(ax[i], ax[j]))
            if i == j:
                v = add(v, c)
            else:
                o = 3 - i - j
                sign = 1 if (i, j) in ((0, 2), (1, 0), (2, 1)) else -1
                # R(0,1) = kxy - s z ; R(0,2) = kxz + s y ; R(1,2) = kyz - s x
                v = add(v, mul(num(sign), mul(s, ax[o])))
            out.append(v)
    return mat(3, 3, out)


def quat_matrix(w, x, y, z):
    two = num(2)
    tx, ty, tz = mul(two, x), mul(two, y), mul(two, z)
    twx, twy, twz = mul(tx, w), mul(ty, w), mul(tz, w)
    txx, txy, txz = mul(tx, x), mul(ty, x), mul(tz, x)
    tyy, tyz, tzz = mul(ty, y), mul(tz, y), mul(tz, z)
    return mat(3, 3, [sub(ONE, add(tyy, tzz)), sub(txy, twz), add(txz, twy),
                      add(txy, twz), sub(ONE, add(txx, tzz)), sub(tyz, twx),
                      sub(txz, twy), add(tyz, twx), sub(ONE, add(txx, tyy))])


def normalized(I, a):
    if ismat(a):
        n2 = squared_norm(I, a)
        n = sqrt(n2)
        pos = c_gt(n2, ZERO)
        return mmap(lambda x: merge(pos, div(x, n), x), a)
    return lift(lambda x: atom(mark_vec(T("normalized", x))), a)


def blkref(p, arr=False):
    """a writable view of (part of) a matrix; arr: with coefficient-wise operations"""
    return rec("blkref", {"p": p, "arr": TRUE} if arr else {"p": p})


def isarr(x):
    return x.tag == "rec" and x.a[0] == "arr"


def unarr(x):
    return rec_get(x, "m") if isarr(x) else x


def mkarr(m):
    return rec("arr", {"m": m})


def arr_op(I, n, a, av, e):
    """coefficient-wise operations"""
    m = unarr(a)
    if not ismat(m):
        return I.unk("array of unknown extent", e)

    def two(f):
        o = unarr(av[0])
        if ismat(o):
            return mkarr(mmap(f, m, o)) if o.a[:2] == m.a[:2] else I.unk("array extents", e)
        return mkarr(mmap(lambda x: f(x, o), m)) if numlike(o) else I.unk("array operand", e)
    ops = {"operator+": add, "operator-": sub, "operator*": mul, "operator/": div, "cwiseProduct": mul, "cwiseQuotient": div,
           "operator<": c_lt, "operator>": c_gt, "operator<=": c_le, "operator>=": c_ge,
           "operator==": c_eq, "operator!=": lambda x, y: b_not(c_eq(x, y)), "operator&&": b_and, "operator||": b_or,
           "min": lambda x, y: ite(c_lt(y, x), y, x), "max": lambda x, y: ite(c_lt(x, y), y, x)}
    if n == "operator-" and not av:
        return mkarr(mmap(neg, m))
    if n in ops and len(av) == 1:
        return two(ops[n])
    if n == "operator!" and not av:
        return mkarr(mmap(b_not, m))
    one = {"square": lambda x: mul(x, x), "abs2": lambda x: mul(x, x), "abs": lambda x: fun("abs", x), "sqrt": sqrt, "inverse": inv,
           "cube": lambda x: mul(x, mul(x, x)), "sin": lambda x: fun("sin", x), "cos": lambda x: fun("cos", x)}.get(n)
    if one and not av:
        return mkarr(mmap(one, m))
    if n == "matrix":
        return m
    if n in ("array", "eval", "derived"):
        return a
    if n == "transpose":
        return mkarr(etrans(m))
    if n == "sum" and not av:
        return nsum(m.a[2])
    if n == "mean" and not av:
        return div(nsum(m.a[2]), num(len(m.a[2])))
    if n == "prod" and not av:
        r = ONE
        for x in m.a[2]:
            r = mul(r, x)
        return r
    if n == "all":
        return b_all(m.a[2])
    if n == "any":
        return b_any(m.a[2])
    if n == "count":
        return nsum(ite(x, ONE, ZERO) for x in m.a[2])
    if n in ("maxCoeff", "minCoeff") and not av:
        return coeff_extreme(n, m)
    if n in ("rows", "cols", "size"):
        return num({"rows": m.a[0], "cols": m.a[1], "size": m.a[0] * m.a[1]}[n])
    if n in ("unaryExpr",):
        return mkarr(mmap(lambda x: val(I, I.call_clo(av[0], [ptr(I.alloc(x, "ue"))], e), e), m))
    return I.unk("array operation " + n, e)


def b_all(xs):
    r = TRUE
    for x in xs:
        r = b_and(r, x)
    return r


def coeff_extreme(n, m):
    return lift(lambda *x: atom(T(n, *sorted(x, key=lambda z: z.id))), *m.a[2])


def in_place(I, obj, e):
    """the location an in-place operation changes; a temporary that is not a view of anything loses the change"""
    if not I.is_ptr(obj) and not (obj.tag == "rec" and obj.a[0] in ("blkref",)):
        I.lose("in-place operation on an unmodelled view", e)
    return loc_of(I, obj)


def eigen_mcall(I, e, obj):
    n = e["n"]
    cls = e.get("cls", "")
    args = lambda: [val(I, I.eval(a), e) for a in e["a"]]
    if "CommaInitializer" in cls:
        if n == "operator,":
            p = obj if I.is_ptr(obj) else ptr(I.alloc(obj, "ci"))
            st = I.load(p, e)
            st = comma_put(I, st, args()[0], e)
            I.store(p, st, e)
            return p
        if n in ("finished",):
            st = val(I, obj, e)
            return rec_get(st, "p")
    if n == "operator<<" and "DenseBase" in cls:
        st = rec("comma", {"p": obj, "i": ZERO})
        return comma_put(I, st, args()[0], e)
    if n in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "noalias"):
        if n == "noalias":
            return obj if not I.is_ptr(obj) else blkref(loc_of(I, obj))
        w = val(I, obj, e)
        if w.tag == "rec" and w.a[0] == "vw":
            p = rec_get(w, "p")
            if p is None:
                return I.lose("assignment to rows or columns", e)
            r = vectorwise(I, n, rec("vw", {"m": I.load(p, e), "rows": rec_get(w, "rows")}), [unarr(x) for x in args()], e)
            I.store(p, r, e)
            return p
        p = in_place(I, obj, e)
        b = args()[0]
        cur = val(I, obj, e)
        if isarr(cur) and n != "operator=":
            b = arr_op(I, n[:-1], cur, [b], e)
        elif n != "operator=":
            a = I.load(p, e)
            b = unarr(b)
            b = {"operator+=": eadd, "operator-=": esub, "operator*=": emul, "operator/=": ediv}[n](I, a, b)
        if n == "operator=" and "DiagonalMatrix" in cls and ismat(b):
            b = ediag(b) if b.a[0] != b.a[1] else b
        elif n == "operator=" and "DiagonalMatrix" in cls:
            b = appt("diag", b) if not (b.tag == "t" and b.a[0] == "diag") else b
        store_mat(I, p, b, e)
        return p
    if n in ("setZero", "setIdentity", "setOnes", "setConstant"):
        p = in_place(I, obj, e)
        a = I.load(p, e)
        if not ismat(a):
            if I.mode.abs_vec and n == "setZero":
                I.store(p, ZERO, e)
                return p
            I.store(p, I.unk(n, e), e)
            return p
        R, C = a.a[:2]
        if n == "setConstant":
            c = args()[0]
            I.store(p, mat(R, C, [c] * (R * C)), e)
        elif n == "setIdentity":
            I.store(p, mat(R, C, [ONE if r == c else ZERO for r in range(R) for c in range(C)]), e)
        else:
            I.store(p, mat(R, C, [ZERO if n == "setZero" else ONE] * (R * C)), e)
        return p
    if n in ("head", "tail", "segment", "block", "topRows", "bottomRows", "leftCols", "rightCols", "row", "col",
             "topLeftCorner", "bottomRightCorner", "topRightCorner", "bottomLeftCorner"):
        p = loc_of(I, obj)
        a = I.load(p, e)
        ta = [int(x["i"]) for x in e.get("ta", ()) if "i" in x]
        av = [nconst(x) if is_num(x) else None for x in args()]
        if ismat(a):
            R, C = a.a[:2]
        elif a.tag == "num" or a.tag == "t" or a is UNDEF:
            R, C = 6, 1
        else:
            return unknown_call(I, e, [])
        st = None
        av = [int(x) if x is not None else None for x in av]
        if n in ("head", "tail"):
            k = ta[0] if ta else av[0]
            if k is not None:
                st = ("blk", 0 if n == "head" else R - k, 0, k, 1)
        elif n == "segment":
            k = ta[0] if ta else av[1]
            if k is not None and av[0] is not None:
                st = ("blk", av[0], 0, k, 1)
        elif n == "block":
            if len(ta) >= 2 and len(av) >= 2 and None not in av[:2]:
                st = ("blk", av[0], av[1], ta[0], ta[1])
            elif len(av) == 4 and None not in av:
                st = ("blk",) + tuple(av)
        elif n == "row" and av[0] is not None:
            st = ("blk", av[0], 0, 1, C)
        elif n == "col" and av[0] is not None:
            st = ("blk", 0, av[0], R, 1)
        elif n.endswith("Corner"):
            h, w = (ta if len(ta) >= 2 else av)[:2]
            st = ("blk", 0 if n.startswith("top") else R - h, 0 if "Left" in n else C - w, h, w)
        elif n in ("topRows", "bottomRows"):
            k = ta[0] if ta else av[0]
            st = ("blk", 0 if n == "topRows" else R - k, 0, k, C)
        elif n in ("leftCols", "rightCols"):
            k = ta[0] if ta else av[0]
            st = ("blk", 0, 0 if n == "leftCols" else C - k, R, k)
        if st is None:
            return I.unk("block with unknown extent", e)
        return blkref(I.extend(p, st))
    if n in ("operator()", "operator[]", "coeff", "coeffRef", "x", "y", "z", "w"):
        p = loc_of(I, obj)
        a = I.load(p, e)
        if a.tag == "rec" and a.a[0] == "quat":
            return I.extend(p, ("f", n))
        av = args()
        if n in ("x", "y", "z", "w"):
            av = [num("xyzw".index(n))]
        if ismat(a):
            R, C = a.a[:2]
            if len(av) == 2:
                idx = add(av[0], mul(num(R), av[1]))
            else:
                idx = av[0]
            return I.extend(p, ("i", idx))
        return ptr(I.alloc(app("coeff", a, *av), "co"))
    if n in ("array", "matrix", "derived", "const_cast_derived") and ismat(unarr(val(I, obj, e))) and (I.is_ptr(obj) or obj.tag == "rec" and obj.a[0] == "blkref"):
        was = isarr(val(I, obj, e))
        return blkref(loc_of(I, obj), n == "array" or was and n != "matrix")
    if n == "diagonal" and not e["a"] and (I.is_ptr(obj) or obj.tag == "rec" and obj.a[0] == "blkref") and ismat(val(I, obj, e)):
        return blkref(I.extend(loc_of(I, obj), ("diag",)))
    if n == "transpose" and not e.get("mconst") and (I.is_ptr(obj) or obj.tag == "rec" and obj.a[0] == "blkref") and ismat(val(I, obj, e)):
        return blkref(I.extend(loc_of(I, obj), ("T",)))
    if n in ("transposeInPlace", "adjointInPlace"):
        p = in_place(I, obj, e)
        I.store(p, etrans(I.load(p, e)), e)
        return VOID
    if n == "swap" and len(e["a"]) == 1:
        p = in_place(I, obj, e)
        o = I.eval(e["a"][0])
        q = in_place(I, o, e)
        x, y = I.load(p, e), I.load(q, e)
        if ismat(x) and ismat(y) and x.a[:2] == y.a[:2]:
            I.store(p, y, e)
            I.store(q, x, e)
            return VOID
        return unknown_call(I, e, [obj])
    a = val(I, obj, e)
    av = args()
    if n == "array" and ismat(a):
        return mkarr(a)
    if isarr(a):
        return arr_op(I, n, a, av, e)
    av = [unarr(x) for x in av]
    if n == "normalize" and not e["a"]:
        in_place(I, obj, e)
    if a.tag == "rec" and a.a[0] == "vw":
        return vectorwise(I, n, a, av, e)
    if n == "operator+":
        return eadd(I, a, av[0])
    if n == "operator-":
        if av:
            return esub(I, a, av[0])
        return eneg(I, a)
    if n == "operator*":
        return emul(I, a, av[0])
    if n == "operator/":
        return ediv(I, a, av[0])
    if n in ("lazyProduct",):
        return emul(I, a, av[0])
    if n == "transpose":
        return etrans(a)
    if n in ("eval", "derived", "matrix", "array", "const_cast_derived", "nestedExpression") and not (a.tag == "rec" and a.a[0] in ("aa", "quat")):
        return a
    if n == "dot":
        return edot(I, a, av[0])
    if n == "cross":
        return ecross(a, av[0])
    if n == "norm" or n == "stableNorm":
        return enorm(I, a)
    if n == "squaredNorm":
        return squared_norm(I, a)
    if n == "normalized":
        return normalized(I, a)
    if n == "normalize":
        I.store(loc_of(I, obj), normalized(I, a), e)
        return VOID
    if n == "isApprox":
        prec = av[1] if len(av) > 1 and not _default_prec(e["a"][1]) else None
        return is_approx(I, a, av[0], prec)
    if n in ("operator==", "operator!="):
        r = c_eq(a, av[0]) if ismat(a) and ismat(av[0]) else lift(lambda x, y: VV._eq_leaf(x, y, False), a, av[0])
        return r if n == "operator==" else b_not(r)
    if n == "isZero":
        # up to the tolerance of the library
        if ismat(a):
            r = TRUE
            for x in a.a[2]:
                r = b_and(r, c_eq(x, ZERO))
            return r
        if I.mode.abs_vec and numlike(a):
            return c_eq(a, ZERO)
        return appb("isZero", flatten(a))
    if n == "size":
        return num(a.a[0] * a.a[1]) if ismat(a) else size_op(a)
    if n in ("rows", "cols"):
        if ismat(a):
            return num(a.a[0] if n == "rows" else a.a[1])
        return lift(lambda x: mat_extent(n, x), a)
    if n == "sum" and ismat(a):
        return nsum(a.a[2])
    if n == "trace" and ismat(a):
        return nsum(a.a[2][i * a.a[1] + i] for i in range(a.a[0]))
    if n == "reshaped" and not e["a"] or n == "reshaped" and _nargs0(e):
        p = loc_of(I, obj)
        return blkref(I.extend(p, ("resh",)))
    if n in ("begin", "cbegin", "end", "cend"):
        p = loc_of(I, obj)
        v = I.load(p, e)
        return mkiter(p, ZERO if "begin" in n else seq_size(v))
    if n == "data":
        return loc_of(I, obj)
    if n == "cwiseProduct" and ismat(a) and ismat(av[0]):
        return mmap(mul, a, av[0])
    if n == "determinant" and ismat(a):
        return edet(a)
    if n == "inverse" and ismat(a) and a.a[:2] == (3, 3):
        return einv3(a)
    if n == "adjoint" and ismat(a):
        return etrans(a)
    if n in ("cwiseAbs", "cwiseAbs2", "cwiseInverse") and ismat(a):
        return mmap({"cwiseAbs": lambda x: fun("abs", x), "cwiseAbs2": lambda x: mul(x, x), "cwiseInverse": inv}[n], a)
    if n == "trace" and ismat(a):
        return nsum(a.a[2][i * a.a[1] + i] for i in range(min(a.a[:2])))
    if n == "cwiseQuotient" and ismat(a) and ismat(av[0]):
        return mmap(div, a, av[0])
    if n in ("value",) and ismat(a) and a.a[:2] == (1, 1) or n.startswith("operator const double") and ismat(a) and a.a[:2] == (1, 1) \
            or n.startswith("operator double") and ismat(a) and a.a[:2] == (1, 1):
        return a.a[2][0]
    if n == "cwiseEqual" and ismat(a) and av and (ismat(av[0]) or numlike(av[0])):
        return arr_op(I, "operator==", mkarr(a), av, e)
    if n == "cwiseNotEqual" and ismat(a) and av and (ismat(av[0]) or numlike(av[0])):
        return arr_op(I, "operator!=", mkarr(a), av, e)
    if n == "binaryExpr" and ismat(a) and ismat(av[0]) and a.a[:2] == av[0].a[:2]:
        return mmap(lambda x, y: val(I, I.call_clo(av[1], [ptr(I.alloc(x, "be")), ptr(I.alloc(y, "be"))], e), e), a, av[0])
    if n == "lpNorm" and ismat(a) and e.get("ta"):
        k = int(e["ta"][0].get("i", 0))
        if k == -1:
            return coeff_extreme("maxCoeff", mmap(lambda x: fun("abs", x), a))
        if k == 1:
            return nsum(fun("abs", x) for x in a.a[2])
        if k == 2:
            return enorm(I, a)
    if n == "prod" and ismat(a):
        return arr_op(I, "prod", mkarr(a), [], e)
    if n in ("allFinite", "hasNaN") and ismat(a):
        return TRUE if n == "allFinite" else FALSE
    # angle-axis and quaternions
    if a.tag == "rec" and a.a[0] == "aa":
        if n == "angle":
            return rec_get(a, "angle") if not e.get("lv") else I.extend(loc_of(I, obj), ("f", "angle"))
        if n == "axis":
            return rec_get(a, "axis") if not e.get("lv") else I.extend(loc_of(I, obj), ("f", "axis"))
        if n == "fromRotationMatrix" and ismat(av[0]):
            I.store(in_place(I, obj, e), aa_of(I, av[0]), e)
            return obj
        if n in ("toRotationMatrix", "matrix"):
            return aa_matrix(rec_get(a, "angle"), rec_get(a, "axis"))
        if n == "inverse":
            return rec("aa", {"angle": neg(rec_get(a, "angle")), "axis": rec_get(a, "axis")})
    if a.tag == "rec" and a.a[0] == "quat":
        q = [rec_get(a, k) for k in "wxyz"]
        if n in ("toRotationMatrix", "matrix"):
            return quat_matrix(*q)
        if n == "coeffs":
            return mat(4, 1, [q[1], q[2], q[3], q[0]])
        if n == "inverse":
            n2 = nsum(mul(x, x) for x in q)
            return rec("quat", {k: div(x, n2) for k, x in zip("wxyz", (q[0], neg(q[1]), neg(q[2]), neg(q[3])))})
        if n == "conjugate":
            return rec("quat", {"w": q[0], "x": neg(q[1]), "y": neg(q[2]), "z": neg(q[3])})
        if n == "normalized":
            nn = sqrt(nsum(mul(x, x) for x in q))
            return rec("quat", {k: div(x, nn) for k, x in zip("wxyz", q)})
    if a.tag == "t" and a.a[0] == "quatof" and n in ("toRotationMatrix", "matrix"):
        return a.a[1]
    if ismat(a) and n in ("rowwise", "colwise"):
        f = {"m": a, "rows": TRUE if n == "rowwise" else FALSE}
        if not e.get("mconst") and I.is_ptr(obj):
            f["p"] = loc_of(I, obj)
        return rec("vw", f)
    if ismat(a) and n in ("cwiseSqrt", "sqrt"):
        return mmap(sqrt, a)
    if ismat(a) and n == "asDiagonal":
        return ediag(a)
    if ismat(a) and n in ("toDenseMatrix",):
        return a
    if ismat(a) and n == "diagonal":
        k = min(a.a[:2])
        return mat(k, 1, [a.a[2][i * a.a[1] + i] for i in range(k)])
    if ismat(a) and n == "mean" and not av and a.a[2]:
        return div(nsum(a.a[2]), num(len(a.a[2])))
    if ismat(a) and n in ("cwiseMax", "cwiseMin") and len(av) == 1:
        o = av[0]
        f = (lambda x, y: ite(c_lt(x, y), y, x)) if n == "cwiseMax" else (lambda x, y: ite(c_lt(y, x), y, x))
        if ismat(o) and o.a[:2] == a.a[:2]:
            return mmap(f, a, o)
        if numlike(o):
            return mmap(lambda x: f(x, o), a)
    if ismat(a) and n == "unaryExpr":
        return mmap(lambda x: val(I, I.call_clo(av[0], [ptr(I.alloc(x, "ue"))], e), e), a)
    if a.tag == "t" and a.a[0] == "eig" and ismat(a.a[1]) and n in ("eigenvalues", "eigenvectors"):
        k, fm = a.a[1].a[0], a.a[1]
        if n == "eigenvalues":
            return mat(k, 1, [atom(T("eigenvalue", fm, num(i))) for i in range(k)])
        return mat(k, k, [atom(T("eigenvector", fm, num(j), num(i))) for i in range(k) for j in range(k)])
    # opaque dense operations
    if n in ("maxCoeff", "minCoeff") and not av:
        if ismat(a):
            return coeff_extreme(n, a)
        return lift(lambda x: atom(T(n, x)), a)
    if n in ("eigenvalues", "eigenvectors", "asDiagonal", "cwiseSqrt", "rowwise", "colwise", "inverse", "adjoint",
             "cwiseAbs", "toDenseMatrix", "diagonal", "llt", "ldlt", "matrixL", "sqrt", "abs", "squaredNorm"):
        nm = {"asDiagonal": "diag"}.get(n, n)
        return appt(nm, a)
    if n == "info":
        return app("info", a)
    if n == "mean":
        return app("mean", a)
    if n == "unaryExpr":
        return unary_expr(I, a, av[0], e)
    return unknown_call(I, e, [obj])


def interp_consts():
    from . import interp
    return interp.LOCKED, interp.UNLOCKED


LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock")
RANDOM_DIST = ("std::normal_distribution", "std::uniform_real_distribution")


def dist_new(t, vs):
    vs = (vs + [ZERO, ONE][len(vs):])[:2]
    return rec("dist", {"kind": strc(t), "a": vs[0], "b": vs[1]})


def draw(I, e, d, g):
    """one number from a distribution: the generator's next standard draw, scaled"""
    p = loc_of(I, g)
    v = I.load(p, e)
    if v.tag in ("t", "sym"):
        v = rec("rng", {"seed": v, "n": ZERO})
    if d.tag != "rec" or d.a[0] != "dist" or v.tag != "rec" or v.a[0] != "rng":
        I.store(p, I.unk("random generator", e), e)
        return I.unk("random draw", e)
    k = rec_get(v, "n")
    I.store(p, rec_set(v, "n", add(k, ONE)), e)
    normal = "normal" in rec_get(d, "kind").a
    z = atom(T("std-normal" if normal else "std-uniform", rec_get(v, "seed"), k))
    a, b = rec_get(d, "a"), rec_get(d, "b")
    return add(a, mul(b, z)) if normal else add(a, mul(sub(b, a), z))


def ediag(v):
    n = max(v.a[:2])
    return mat(n, n, [v.a[2][i] if i == j else ZERO for i in range(n) for j in range(n)])


def vectorwise(I, n, a, av, e):
    """operations on the rows or columns of a matrix"""
    m, rows = rec_get(a, "m"), rec_get(a, "rows") is TRUE
    R, C, en = m.a
    lines = [mat(1, C, en[r * C:(r + 1) * C]) for r in range(R)] if rows else [mat(R, 1, [en[r * C + c] for r in range(R)]) for c in range(C)]
    red = {"sum": lambda x: nsum(x.a[2]), "mean": lambda x: div(nsum(x.a[2]), num(len(x.a[2]))), "norm": lambda x: enorm(I, x),
           "squaredNorm": lambda x: squared_norm(I, x)}.get(n)
    if red and not av:
        if not (C if rows else R):
            return I.unk("reduction of nothing", e)
        xs = [red(x) for x in lines]
        return mat(len(xs), 1, xs) if rows else mat(1, len(xs), xs)
    op = {"operator+": add, "operator-": sub, "operator+=": add, "operator-=": sub, "operator=": lambda x, y: y}.get(n)
    if op and len(av) == 1 and ismat(av[0]):
        o = av[0].a[2]
        if len(o) != (C if rows else R):
            I.ubev(TRUE, "sizes of rows or columns differ", e)
            return I.unk("sizes differ", e)
        return mat(R, C, [op(en[r * C + c], o[c if rows else r]) for r in range(R) for c in range(C)])
    return I.unk("rowwise or columnwise " + n, e)


def mat_extent(n, x):
    t = T(n, x)
    if x.tag == "t" and x.a[0] == "dynmat":
        return x.a[1] if n == "rows" else x.a[2]
    mark_nonneg(t)
    return atom(t)


def unary_expr(I, a, f, e):
    """elementwise map: effects of the function happen once per entry"""
    k = sym("ue%d" % I.cells)
    I.cells += 1
    x = atom(T("entry", a, k))
    before = len(I.effects)
    r = I.call_clo(f, [ptr(I.alloc(x, "ue"))], e)
    effs = I.effects[before:]
    del I.effects[before:]
    from .interp import close
    b, (r2,) = close(k, [r])
    for pc, ef in effs:
        b2, (ef2,) = close(k, [ef])
        I.effects.append((pc, T("foreach-entry", a, b2, ef2)))
    return T("unaryExpr", a, b, r2)


def _nargs0(e):
    return all(x.get("k") in ("DefaultArg",) for x in e["a"])


def _default_prec(a):
    """isApprox' default precision argument"""
    s = str(a)
    return "dummy_precision" in s


def edet(a):
    R, C, m = a.a
    if R == 3 and C == 3:
        M = lambda i, j: m[i * 3 + j]
        return add(sub(mul(M(0, 0), sub(mul(M(1, 1), M(2, 2)), mul(M(1, 2), M(2, 1)))),
                       mul(M(0, 1), sub(mul(M(1, 0), M(2, 2)), mul(M(1, 2), M(2, 0))))),
                   mul(M(0, 2), sub(mul(M(1, 0), M(2, 1)), mul(M(1, 1), M(2, 0)))))
    return atom(unk("determinant"))


def einv3(a):
    m = a.a[2]
    d = edet(a)
    M = lambda i, j: m[(i % 3) * 3 + j % 3]
    # cofactor of (j, i), cyclic form carries its own sign
    out = []
    for i in range(3):
        for j in range(3):
            c = sub(mul(M(j + 1, i + 1), M(j + 2, i + 2)), mul(M(j + 1, i + 2), M(j + 2, i + 1)))
            out.append(div(c, d))
    return mat(3, 3, out)


def eneg(I, a):
    if ismat(a):
        return mmap(neg, a)
    if numlike(a):
        return neg(a)
    return appt("eneg", a)


def store_mat(I, p, b, e):
    cur = I.load(p, e)
    b = unarr(b)
    if b.tag == "rec" and b.a[0] == "aa" and ismat(cur):
        b = aa_matrix(rec_get(b, "angle"), rec_get(b, "axis"))
    elif b.tag == "rec" and b.a[0] == "quat" and ismat(cur):
        b = quat_matrix(*[rec_get(b, k) for k in "wxyz"])
    elif cur.tag == "rec" and cur.a[0] == "aa" and ismat(b):
        b = aa_of(I, b)
    if b.tag == "rec" and rec_get(b, "$base") is not None:
        b = rec_get(b, "$base")
    if ismat(cur) and not ismat(b) and b.tag not in ("dec", "unk"):
        R, C = cur.a[:2]
        if b.tag == "t" or b.tag == "num":
            b = mat(R, C, [mat_entry(I, b, r, c) for r in range(R) for c in range(C)])
    I.store(p, b, e)


def comma_put(I, st, v, e):
    if st.tag != "rec" or st.a[0] != "comma":
        return I.unk("comma initialiser", e)
    i = int(nconst(rec_get(st, "i")))
    p = rec_get(st, "p")
    p = loc_of(I, p)
    a = I.load(p, e)
    if not ismat(a):
        I.store(p, I.unk("comma initialiser", e), e)
        return st
    R, C = a.a[:2]
    v = unarr(v)
    if v.tag not in ("mat", "num", "dec"):
        I.store(p, I.unk("comma initialiser", e), e)
        return st
    if v.tag == "dec" and not numlike(v):
        I.store(p, I.unk("comma initialiser of blocks", e), e)
        return st
    # Eigen fills from left to right in bands of rows
    h, w = v.a[:2] if ismat(v) else (1, 1)
    row = int(nconst(rec_get(st, "row") or ZERO))
    band = int(nconst(rec_get(st, "band") or ZERO))
    col = i
    if col >= C:
        row, col, band = row + band, 0, h
    elif col == 0 and band == 0:
        band = h
    if h != band or col + w > C or row + h > R:
        I.store(p, I.unk("comma initialiser of blocks", e), e)
        return st
    if ismat(v):
        I.store(I.extend(p, ("blk", row, col, h, w)), v, e)
    else:
        I.store(I.extend(p, ("i", num(col * R + row))), v, e)
    return rec("comma", {"p": p, "i": num(col + w), "row": num(row), "band": num(band)})


def aa_of(I, m):
    """the angle and axis Eigen computes of a rotation matrix"""
    fm = flatten(m)
    ang = lift(lambda x: atom(T("aa_angle", x)), fm)
    return rec("aa", {"angle": ang, "axis": mat(3, 1, [lift(lambda x, i=i: atom(T("aa_axis", x, i)), fm) for i in range(3)])})


def eigen_construct(I, e, d):
    t = tpl(d)
    T_ = I.fr().T
    kind = e["ctor"]
    if kind == "default":
        if t == "Eigen::AngleAxis":
            return rec("aa", {"angle": UNDEF, "axis": mat(3, 1, [UNDEF] * 3)})
        m = default_record(I, T_, d, False)
        return m if m is not None else T("default", d["s"])
    evs = [I.eval(a) for a in e["a"]]
    if t in ("Eigen::VectorBlock", "Eigen::Block", "Eigen::Reshaped"):
        x = evs[0]
        if I.is_ptr(x):
            x = I.load(x, e)
        return x
    av = [val(I, x, e) for x in evs]
    if t == "Eigen::Array":
        return av[0] if len(av) == 1 and isarr(av[0]) else mkarr(av[0]) if len(av) == 1 and ismat(av[0]) else I.unk("array", e)
    av = [unarr(x) for x in av]
    if len(av) == 1 and av[0].tag == "rec" and av[0].a[0] == "aa" and t == "Eigen::Matrix":
        return aa_matrix(rec_get(av[0], "angle"), rec_get(av[0], "axis"))
    if len(av) == 1 and av[0].tag == "rec" and av[0].a[0] == "quat" and t == "Eigen::Matrix":
        return quat_matrix(*[rec_get(av[0], k) for k in "wxyz"])
    if t == "Eigen::AngleAxis":
        if kind in ("copy", "move"):
            return av[0]
        if len(av) == 2:
            return rec("aa", {"angle": av[0], "axis": av[1]})
        if ismat(av[0]) and av[0].a[:2] == (3, 3):
            return aa_of(I, av[0])
        return rec("aa", {"angle": app("aa_angle", av[0]), "axis": atom(mark_vec(T("aa_axis", av[0])))}) if I.mode.abs_vec else I.unk("angle axis", e)
    if t == "Eigen::Quaternion":
        if kind in ("copy", "move"):
            return av[0]
        if len(av) == 4:
            return rec("quat", dict(zip("wxyz", av)))
        if ismat(av[0]) and av[0].a[:2] in ((4, 1), (1, 4)):
            return rec("quat", dict(zip("xyzw", av[0].a[2])))
        if ismat(av[0]):
            return T("quatof", flatten(av[0]))
        return I.unk("quaternion", e)
    if t == "Eigen::Matrix":
        R, C = eigen_dims(T_, d)
        if len(av) == 1 and ismat(av[0]) and (C == 1 and av[0].a[0] == 1 != av[0].a[1] or R == 1 and av[0].a[1] == 1 != av[0].a[0]):
            av = [etrans(av[0])]
        if R > 0 and C > 0:
            if len(av) == 1 and (kind in ("copy", "move") or ismat(av[0]) or not numlike(av[0]) or I.mode.abs_vec):
                v = av[0]
                if v.tag == "seq":
                    # initializer list of (rows of) coefficients
                    return mat_from_list(I, v, R, C, e)
                if v.tag == "rec" and rec_get(v, "$base") is not None:
                    v = rec_get(v, "$base")
                if not ismat(v) and not I.mode.abs_vec and v.tag in ("t", "num"):
                    v = mat(R, C, [mat_entry(I, v, r, c) for r in range(R) for c in range(C)])
                return v
            if len(av) == R * C and C == 1:
                if I.mode.abs_vec:
                    return atom(mark_vec(T("vec", *av))) if any(x is not ZERO for x in av) else ZERO
                return mat(R, C, av)
            return I.unk("matrix constructor", e)
        if kind not in ("copy", "move") and len(av) in (1, 2) and all(numlike(x) for x in av):
            r, c = av[0], av[1] if len(av) == 2 else ONE
            if len(av) == 1 and R == 1:
                r, c = ONE, av[0]
            h, w = nconst(r), nconst(c)
            if h is not None and w is not None and 0 <= h <= 16 and 0 <= w <= 16:
                return mat(int(h), int(w), [UNDEF] * int(h * w))
            return T("dynmat", r, c)
        if len(av) == 1:
            return av[0]
        return T("dynmat", *av)
    if t in ("Eigen::SelfAdjointEigenSolver", "Eigen::EigenSolver", "Eigen::LLT", "Eigen::LDLT", "Eigen::JacobiSVD"):
        return appt("eig", *[flatten(x) for x in av[:1]])
    if t == "Eigen::DiagonalMatrix":
        if ismat(av[0]) and 1 in av[0].a[:2] and kind not in ("copy", "move"):
            return ediag(av[0])
        return av[0]
    if len(av) == 1:
        return av[0]
    return I.unk("Eigen constructor %s" % t, e)


def mat_from_list(I, v, R, C, e):
    if all(p[0] == "one" and p[1] is TRUE for p in v.a):
        xs = [p[2] for p in v.a]
        if len(xs) == R and all(x.tag == "seq" for x in xs):
            rows = [[q[2] for q in x.a] for x in xs]
            if all(len(r) == C for r in rows):
                return mat(R, C, [y for r in rows for y in r])
        if len(xs) == R * C and (R == 1 or C == 1):
            return mat(R, C, xs)
    return I.unk("matrix initialiser list", e)


def eigen_call(I, e):
    q = e["q"]
    n = q.rsplit("::", 1)[-1]
    T_ = I.fr().T
    if n in ("Zero", "Identity", "Ones", "Constant", "Random", "UnitX", "UnitY", "UnitZ", "Unit"):
        cls = e.get("cls", "")
        import re
        m = re.search(r"Eigen::Matrix<double, (-?\d+), (-?\d+)", cls)
        av = [val(I, I.eval(a), e) for a in e["a"]]
        if m:
            R, C = int(m.group(1)), int(m.group(2))
            if R > 0 and C > 0:
                if n == "Random":
                    return I.unk("random matrix", e)
                if I.mode.abs_vec and C == 1:
                    if n == "Zero":
                        return ZERO
                    return atom(mark_vec(T("e:" + n, *av)))
                if n == "Zero":
                    return mat(R, C, [ZERO] * (R * C))
                if n == "Ones":
                    return mat(R, C, [ONE] * (R * C))
                if n == "Constant":
                    return mat(R, C, [av[0]] * (R * C))
                if n == "Identity":
                    return mat(R, C, [ONE if r == c else ZERO for r in range(R) for c in range(C)])
                if n in ("UnitX", "UnitY", "UnitZ"):
                    k = "XYZ".index(n[-1])
                    return mat(R, C, [ONE if i == k else ZERO for i in range(R * C)])
            return T("e:" + n, *av)
        return I.unk(q, e)
    if n == "NullaryExpr":
        return nullary_expr(I, e)
    if n == "dummy_precision":
        return sym("dummy_precision")
    av = [val(I, I.eval(a), e) for a in e["a"]]
    if n.startswith("operator") and len(av) == 2 and any(isarr(x) for x in av):
        x, y = av
        if isarr(x):
            return arr_op(I, n, x, [y], e)
        if numlike(x) and ismat(unarr(y)):
            return arr_op(I, n, mkarr(mmap(lambda _: x, unarr(y))), [y], e)
        return I.unk("array operand", e)
    if len(av) == 1 and isarr(av[0]):
        return arr_op(I, n, av[0], [], e)
    if n == "operator*":
        return emul(I, av[0], av[1])
    if n == "operator+":
        return eadd(I, av[0], av[1])
    if n == "operator-":
        return esub(I, av[0], av[1])
    if n == "operator/":
        return ediv(I, av[0], av[1])
    return unknown_call(I, e, [])


def clo_arity(I, f):
    if f.tag == "clo":
        for k in f.a[0]:
            g = I.prog.functions.get(k)
            if g:
                return len(g["params"])
    return 0


def nullary_expr(I, e):
    av = [val(I, I.eval(a), e) for a in e["a"]]
    f = av[-1]
    import re
    m = re.search(r"Eigen::Matrix<double, (-?\d+), (-?\d+)", e.get("cls", ""))
    if m:
        dims = [int(m.group(1)), int(m.group(2))]
        if len(av) == 2:
            dims = [nconst(av[0]) if x < 0 else x for x in dims]
        elif len(av) == 3:
            dims = [nconst(x) for x in av[:2]]
        if all(x is not None and 0 <= x <= 16 for x in dims):
            R, C = (int(x) for x in dims)
            out = {}
            np = clo_arity(I, f)
            for c in range(C):
                for r in range(R):
                    ix = [] if np == 0 else [num(r), num(c)] if np == 2 else [num(max(r, c))]
                    out[r, c] = val(I, I.call_clo(f, ix, e), e)
            return mat(R, C, [out[r, c] for r in range(R) for c in range(C)])
    before = len(I.effects)
    r = I.call_clo(f, [], e)
    effs = I.effects[before:]
    del I.effects[before:]
    for pc, ef in effs:
        I.effects.append((pc, T("foreach-entry", T("shape", *av[:-1]), ef)))
    return T("nullary", *(av[:-1] + [r]))


# ------------------------------------------------------------------ std member calls
SEQ_TPL = ("std::vector", "std::array", "google::protobuf::RepeatedField", "google::protobuf::RepeatedPtrField",
           "std::initializer_list", "std::deque", "std::list")


def cls_tpl(e):
    c = e.get("cls") or e.get("q", "")
    return c.split("<")[0]


def mcall(I, e, obj):
    cls = e.get("cls") or ""
    t = cls_tpl(e)
    n = e["n"]
    if n.startswith("~"):
        return VOID
    c = I.contracts.get("lib:" + (e.get("q") or ""))
    if c:
        r = c(I, e, obj, None)
        if r is not NotImplemented:
            return r
    if t.startswith("Eigen::"):
        return eigen_mcall(I, e, obj)
    if cls in pb_msgs():
        return pb_mcall(I, e, obj, cls)
    if cls.startswith("google::protobuf::Message") and n in ("SerializeAsString", "SerializeToString", "SerializePartialAsString"):
        v = val(I, obj, e)
        if is_msg(v) and not e["a"]:
            return T("serialized", v)
        if is_msg(v) and len(e["a"]) == 1:
            I.store(loc_of(I, I.eval(e["a"][0])), T("serialized", v), e)
            return TRUE
    if n == "ok" and cls.startswith("google::protobuf::util::"):
        v = val(I, obj, e)
        if v.tag in ("rec", "dec"):
            return lift(lambda x: rec_get(x, "ok") if x.tag == "rec" and x.a[0] == "pbstatus" else I.unk("status", e), v)
    if t in SEQ_TPL:
        return seq_mcall(I, e, obj)
    if t == "std::priority_queue":
        return pq_mcall(I, e, obj)
    if t in ("std::basic_string", "std::basic_string_view"):
        return str_mcall(I, e, obj)
    if t in ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr_access", "std::__shared_ptr"):
        return box_mcall(I, e, obj)
    if t.startswith("std::optional") or t.startswith("std::_Optional"):
        return opt_mcall(I, e, obj)
    if t == "std::variant":
        return vari_mcall(I, e, obj)
    if t in CHRONO:
        return chrono_mcall(I, e, obj)
    if t in ("__gnu_cxx::__normal_iterator", "google::protobuf::internal::RepeatedPtrIterator",
             "google::protobuf::internal::RepeatedIterator", "Eigen::internal::pointer_based_stl_iterator",
             "std::reverse_iterator"):
        return iter_mcall(I, e, obj)
    if t == "std::hash":
        a = val(I, I.eval(e["a"][0]), e)
        return app("hash", a)
    if t == "std::function":
        if n == "operator()":
            f = val(I, obj, e)
            args = [I.eval(a) for a in e["a"]]
            return I.call_clo(f, args, e)
        if n == "operator bool":
            return I.tobool(val(I, obj, e))
        if n == "operator=":
            I.store(loc_of(I, obj), val(I, I.eval(e["a"][0]), e), e)
            return obj
    if t in ("std::mutex", "std::recursive_mutex") and n in ("lock", "unlock"):
        p = loc_of(I, obj)
        if n == "lock":
            I.acquire(p, e)
        else:
            I.ubev(b_not(I.held(I.load(p, e))), "mutex not held", e)
            I.store(p, interp_consts()[1], e)
        return VOID
    if t == "std::unique_lock" and n in ("lock", "unlock", "owns_lock"):
        p = loc_of(I, obj)
        v = I.load(p, e)
        if v.tag != "rec" or v.a[0] != "lock":
            return unknown_call(I, e, [obj])
        if n == "owns_lock":
            return rec_get(v, "owned")
        if n == "lock":
            I.acquire(rec_get(v, "m"), e)
        else:
            I.ubev(b_not(rec_get(v, "owned")), "mutex not held", e)
            I.release(v)
        I.store(p, rec_set(v, "owned", TRUE if n == "lock" else FALSE), e)
        return VOID
    if t in RANDOM_DIST and n == "operator()" and len(e["a"]) == 1:
        return draw(I, e, val(I, obj, e), I.eval(e["a"][0]))
    if t in RANDOM_DIST and n == "reset":
        return VOID
    if t in ("google::LogMessage", "std::basic_ostream", "std::basic_ostringstream", "std::basic_stringstream"):
        if n == "str":
            v = val(I, obj, e)
            if v.tag == "rec" and v.a[0] == "stream":
                return rec_get(v, "s")
        if n == "operator<<":
            p = loc_of(I, obj)
            a = val(I, I.eval(e["a"][0]), e)
            return stream_put(I, p, a, e)
        if n == "stream":
            return ptr(I.alloc(rec("stream", {"s": strc("")}), "log"))
    if t == "std::tuple" and n == "operator=" and len(e["a"]) == 1:
        w = val(I, obj, e)
        if w.tag == "rec" and w.a[0] == "tied":
            v = val(I, I.eval(e["a"][0]), e)
            for k, q in w.a[1]:
                x = I.step(v, ("f", {"0": "first", "1": "second"}[k] if v.tag == "rec" and v.a[0] == "pair" else k), e)
                I.store(q, x, e)
            return obj
    if n == "operator=" and len(e["a"]) == 1:
        p = loc_of(I, obj)
        x = I.eval(e["a"][0])
        ismove = e["a"][0].get("lv") == 2 and I.is_ptr(x)
        v = I.move_from(x, e) if ismove else val(I, x, e)
        I.store(p, v, e)
        return p
    if n == "what":
        return appt("what", val(I, obj, e))
    return unknown_call(I, e, [obj])


def stream_put(I, p, a, e):
    v = I.load(p, e)
    if v.tag == "rec" and v.a[0] == "stream":
        I.store(p, rec("stream", {"s": strcat(rec_get(v, "s"), a)}), e)
    return p


def strcat(a, b):
    def leaf(x, y):
        xs = list(x.a[1:]) if x.tag == "t" and x.a[0] == "strcat" else [x]
        ys = list(y.a[1:]) if y.tag == "t" and y.a[0] == "strcat" else [y]
        out = []
        for z in xs + ys:
            if z.tag == "t" and z.a[0] == "to_string":
                z = z.a[1]
            if is_num(z) and nconst(z) is not None and nconst(z).denominator == 1:
                z = strc(str(int(nconst(z))))
            if z.tag == "str" and z.a == "":
                continue
            if out and out[-1].tag == "str" and z.tag == "str":
                out[-1] = strc(out[-1].a + z.a)
            else:
                out.append(z)
        if not out:
            return strc("")
        if len(out) == 1:
            return out[0]
        return T("strcat", *out)
    return lift(leaf, a, b)


def sized(n, v):
    """parts of a container of n copies of v"""
    c = nconst(n)
    if c is not None and 0 <= c <= 64:
        return [("one", TRUE, v)] * int(c)
    return [("map", n, sym("#b1"), v, TRUE)] if not IN().height(v) else IN().norm_map(n, sym("sz"), v)


def elem_default(I, e):
    """value-initialised element of the container type the call is on"""
    o = e.get("obj") or e.get("o")
    if o is None or "t" not in o:
        return None
    T_ = I.fr().T
    d = strip(T_, I.t(o["t"]))
    while d["k"] in ("lref", "rref", "ptr"):
        d = T_[d["p"]]
    return I.default_value(T_, d["ta"][0]["t"], True) if d.get("ta") else None


def seq_mcall(I, e, obj):
    n = e["n"]
    p = loc_of(I, obj, "seq")
    ev = lambda i: I.eval(e["a"][i])
    av = lambda i: val(I, ev(i), e)
    S = I.load(p, e)
    if n in ("push_back", "Add", "AddAlreadyReserved", "emplace_back") and len(e["a"]) == 1:
        x = ev(0)
        a0 = e["a"][0]
        if n == "Add" and I.t(a0["t"])["k"] == "rec" and "terator" in I.t(a0["t"])["s"]:
            pass
        elif n == "emplace_back" and not _same_elem(I, e):
            return unknown_call(I, e, [obj])
        else:
            v = I.move_from(x, e) if a0.get("lv") == 2 and I.is_ptr(x) else val(I, x, e)
            S = I.load(p, e)
            I.store(p, seq_push(S, v), e)
            if n == "emplace_back":
                return I.extend(p, ("i", seq_size(S)))
            return VOID
    if n == "Add" and len(e["a"]) == 0:
        return unknown_call(I, e, [obj])
    if n == "Add" and len(e["a"]) == 2:
        a, b = av(0), av(1)
        s = iter_slice(I, a, b, e)
        if s is None:
            I.store(p, I.unk("range insert", e), e)
        else:
            I.store(p, seq_concat(S, s), e)
        return VOID
    if n in ("clear", "Clear"):
        I.store(p, seq([]), e)
        return VOID
    if n in ("size", "length"):
        return seq_size(S)
    if n == "empty":
        return c_eq(seq_size(S), ZERO, True)
    if n in ("back", "front"):
        sz = seq_size(S)
        I.ubev(c_eq(sz, ZERO, True), n + "() of an empty container", e)
        i = sub(sz, ONE) if n == "back" else ZERO
        return I.extend(p, ("i", i))
    if n in ("operator[]", "Get", "Mutable"):
        i = av(0)
        sz = seq_size(S)
        if not has_unk(i) and not has_unk(sz):
            I.ubev(b_not(b_and(c_ge(i, ZERO, True), c_lt(i, sz, True))), "index out of range", e)
        return I.extend(p, ("i", i))
    if n == "at":
        i = av(0)
        sz = seq_size(S)
        bad = b_not(b_and(c_ge(i, ZERO, True), c_lt(i, sz, True)))
        I.throw(T("exc", strc("std::out_of_range")), bad)
        return I.extend(p, ("i", i))
    if n in ("begin", "cbegin"):
        return mkiter(p, ZERO)
    if n in ("end", "cend"):
        return mkiter(p, seq_size(S))
    if n in ("reserve", "shrink_to_fit", "Reserve"):
        for a in e["a"]:
            I.eval(a)
        return VOID
    if n == "pop_back":
        parts = list(S.a) if S.tag == "seq" else None
        I.ubev(c_eq(seq_size(S), ZERO, True), "pop_back() of an empty container", e)
        if parts and parts[-1][0] == "one" and parts[-1][1] is TRUE:
            I.store(p, seq(parts[:-1]), e)
            return VOID
        I.store(p, I.unk("pop_back", e), e)
        return VOID
    if n == "data":
        return p
    if n in ("operator=", "swap", "CopyFrom", "Swap"):
        x = ev(0)
        if n in ("swap", "Swap"):
            q = loc_of(I, x)
            b = I.load(q, e)
            I.store(q, S, e)
            I.store(p, b, e)
            return VOID
        v = I.move_from(x, e) if e["a"][0].get("lv") == 2 and I.is_ptr(x) else val(I, x, e)
        if v.tag == "t" and v.a[0] == "default" and "initializer_list" in str(v.a[1]):
            v = seq([])
        I.store(p, v, e)
        return p
    if n == "insert" and len(e["a"]) == 3:
        pos, a, b = av(0), av(1), av(2)
        s = iter_slice(I, a, b, e)
        if s is not None and pos.tag == "rec" and rec_get(pos, "i") is seq_size(S):
            I.store(p, seq_concat(S, s), e)
            return mkiter(p, seq_size(S))
        I.store(p, I.unk("insert", e), e)
        return I.unk("insert", e)
    if n == "resize" and S.tag in ("seq", "sym", "t"):
        m = av(0)
        c = nconst(m)
        if c == 0:
            I.store(p, seq([]), e)
            return VOID
        fill = val(I, I.eval(e["a"][1]), e) if len(e["a"]) > 1 else elem_default(I, e)
        if fill is not None and S.tag == "seq" and not S.a and m.tag == "num":
            I.store(p, seq(sized(m, fill)), e)
            return VOID
    if n == "resize":
        I.store(p, I.unk("resize", e), e)
        return VOID
    if n == "erase" and len(e["a"]) == 2:
        a, b = av(0), av(1)
        if a.tag == "rec" and a.a[0] == "rmiter":
            I.store(p, rec_get(a, "s"), e)
            return mkiter(p, seq_size(rec_get(a, "s")))
        if isiter(a) and isiter(b) and rec_get(a, "i") is ZERO and rec_get(b, "i") is seq_size(S):
            I.store(p, seq([]), e)
            return mkiter(p, ZERO)
    if n in ("erase", "insert", "emplace", "assign"):
        I.store(p, I.unk("container " + n, e), e)
        return I.unk("container " + n, e)
    return unknown_call(I, e, [obj])


# ------------------------------------------------------------------ std::priority_queue
# slots in insertion order, each with the condition that it is still queued; among elements that the comparator does not
# order, the standard leaves the choice open: the later one is taken (a stable order must come from the comparator itself)
def pq_new(I, T_, d, cmp=None):
    ct = T_[targ(T_, d, 2)]
    f = {"n": ZERO, "cmp": cmp if cmp is not None else rec(ct.get("r") or "", {}), "cmpkey": strc(ct.get("r") or ""),
         "elem": strc(T_[targ(T_, d, 0)].get("r") or "")}
    return rec("pq", f)


def pq_slots(q):
    n = int(nconst(rec_get(q, "n")))
    return [(rec_get(q, "g%d" % i), rec_get(q, "e%d" % i)) for i in range(n)]


def pq_less(I, q, a, b, e):
    """comparator(a, b): a comes out after b"""
    cv = rec_get(q, "cmp")
    pa, pb = ptr(I.alloc(a, "pqa")), ptr(I.alloc(b, "pqb"))
    if cv.tag in ("clo", "fn"):
        return I.tobool(I.call_clo(cv, [pa, pb], e))
    r = I.prog.records.get(rec_get(q, "cmpkey").a)
    for m in (r or {}).get("methods", ()):
        f = I.prog.functions.get(m["key"])
        if f is not None and f["q"].endswith("::operator()") and len(f["params"]) == 2:
            return I.tobool(I.call(f, ptr(I.alloc(cv, "cmp")), [pa, pb], e))
    return None


def pq_select(I, q, e):
    """per slot: is it the top element"""
    sl = pq_slots(q)
    lt = {}
    for i in range(len(sl)):
        for j in range(i):
            a, b = pq_less(I, q, sl[i][1], sl[j][1], e), pq_less(I, q, sl[j][1], sl[i][1], e)
            if a is None or b is None or has_unk(a) or has_unk(b):
                return None
            lt[i, j], lt[j, i] = a, b
    out = []
    for i in range(len(sl)):
        c = sl[i][0]
        for j in range(len(sl)):
            if j != i:
                c = b_and(c, b_or(b_not(sl[j][0]), b_not(lt[i, j]) if j < i else lt[j, i]))
        out.append(c)
    return out


def pq_mcall(I, e, obj):
    n = e["n"]
    p = loc_of(I, obj, "pq")
    q = I.load(p, e)
    if not (q.tag == "rec" and q.a[0] == "pq"):
        return unknown_call(I, e, [obj])
    sl = pq_slots(q)
    size = ZERO
    for g, _ in sl:
        size = add(size, ite(g, ONE, ZERO))
    if n == "size":
        return size
    if n == "empty":
        return c_eq(size, ZERO, True)
    if n in ("emplace", "push"):
        ev = [I.eval(a) for a in e["a"]]
        el = I.prog.records.get(rec_get(q, "elem").a)
        v = None
        if len(ev) == 1 and strip(I.fr().T, I.t(e["a"][0]["t"])).get("r") == rec_get(q, "elem").a:
            v = I.move_from(ev[0], e) if e["a"][0].get("lv") == 2 and I.is_ptr(ev[0]) else val(I, ev[0], e)
        elif el:
            v = construct_from(I, I.fr().T, {"r": rec_get(q, "elem").a}, e, ev)
        if v is None:
            v = I.unk("priority_queue element", e)
        q = I.load(p, e)
        for k, x in (("n", num(len(sl) + 1)), ("g%d" % len(sl), TRUE), ("e%d" % len(sl), v)):
            q = rec(q.a[0], dict(q.a[1], **{k: x}))
        I.store(p, q, e)
        return VOID
    if n in ("top", "pop"):
        I.ubev(c_eq(size, ZERO, True), n + "() of an empty queue", e)
        s = pq_select(I, q, e)
        if s is None:
            if n == "pop":
                I.store(p, I.unk("priority_queue order", e), e)
            return I.unk("priority_queue order", e)
        if n == "pop":
            q = I.load(p, e)
            f = {k: v for k, v in q.a[1] if k in ("cmp", "cmpkey", "elem")}
            left = [(b_and(g, b_not(c)), v) for (g, v), c in zip(sl, s)]
            left = [(g, v) for g, v in left if g is not FALSE]
            f["n"] = num(len(left))
            for i, (g, v) in enumerate(left):
                f["g%d" % i], f["e%d" % i] = g, v
            I.store(p, rec(q.a[0], f), e)
            return VOID
        if not sl:
            return I.unk("top() of an empty queue", e)
        v = sl[-1][1]
        for i in reversed(range(len(sl) - 1)):
            v = ite(s[i], sl[i][1], v)
        return ptr(I.alloc(v, "top"))
    if n in ("operator=", "swap"):
        x = I.eval(e["a"][0])
        if n == "operator=":
            I.store(p, I.move_from(x, e) if e["a"][0].get("lv") == 2 and I.is_ptr(x) else val(I, x, e), e)
            return p
        o = loc_of(I, x)
        b = I.load(o, e)
        I.store(o, q, e)
        I.store(p, b, e)
        return VOID
    return unknown_call(I, e, [obj])


def _same_elem(I, e):
    """emplace_back(x) with x of the element type"""
    cls = e.get("cls", "")
    d = I.t(e["a"][0]["t"])
    el = cls[cls.find("<") + 1:].split(", std::allocator")[0]
    return (d.get("r") or d["s"]) == el or d["s"].replace("const ", "") == el


def iter_slice(I, a, b, e):
    """sequence value of [a, b)"""
    if a.tag != "rec" or b.tag != "rec" or a.a[0] != "iter":
        return None
    ca, cb = rec_get(a, "c"), rec_get(b, "c")
    S = I.load(ca, e)
    same = ca is cb or I.load(cb, e) is S
    i, j = rec_get(a, "i"), rec_get(b, "i")
    if not same:
        return None
    if i is ZERO and j is seq_size(S):
        if ismat(S):
            R, C, en = S.a
            return seq([("one", TRUE, en[r * C + c]) for c in range(C) for r in range(R)])
        return S
    ci, cj = nconst(i) if is_num(i) else None, nconst(j) if is_num(j) else None
    if ci is not None and cj is not None:
        return seq([("one", TRUE, seq_at(S, num(k))) for k in range(int(ci), int(cj))])
    return None


def iter_mcall(I, e, obj):
    n = e["n"]
    it = val(I, obj, e)
    if it.tag == "dec" or it.tag != "rec" or it.a[0] != "iter":
        return unknown_call(I, e, [obj])
    c, i = rec_get(it, "c"), rec_get(it, "i")

    def elem(idx):
        S = I.load(c, e)
        sz = seq_size(S)
        if not has_unk(idx) and not has_unk(sz):
            I.ubev(b_not(b_and(c_ge(idx, ZERO, True), c_lt(idx, sz, True))), "dereference of an invalid iterator", e)
        return I.extend(c, ("i", idx))
    if n in ("operator*", "operator->"):
        return elem(i)
    if n == "operator[]":
        return elem(add(i, val(I, I.eval(e["a"][0]), e)))
    if n in ("operator++", "operator--"):
        p = loc_of(I, obj)
        j = add(i, ONE if n == "operator++" else num(-1))
        I.store(p, mkiter(c, j), e)
        return it if e["a"] else p
    if n in ("operator+", "operator-"):
        x = val(I, I.eval(e["a"][0]), e)
        if x.tag == "rec" and x.a[0] == "iter":
            return sub(i, rec_get(x, "i"))
        return mkiter(c, add(i, x) if n == "operator+" else sub(i, x))
    if n in ("operator+=", "operator-="):
        x = val(I, I.eval(e["a"][0]), e)
        p = loc_of(I, obj)
        I.store(p, mkiter(c, add(i, x) if n == "operator+=" else sub(i, x)), e)
        return p
    if n in ("operator==", "operator!="):
        x = val(I, I.eval(e["a"][0]), e)
        return iter_cmp(n[8:], it, x)
    if n == "operator=":
        I.store(loc_of(I, obj), val(I, I.eval(e["a"][0]), e), e)
        return obj
    return unknown_call(I, e, [obj])


def iter_cmp(op, a, b):
    i, j = rec_get(a, "i"), rec_get(b, "i")
    return {"==": lambda: c_eq(i, j, True), "!=": lambda: b_not(c_eq(i, j, True)), "<": lambda: c_lt(i, j, True),
            ">": lambda: c_gt(i, j, True), "<=": lambda: c_le(i, j, True), ">=": lambda: c_ge(i, j, True)}[op]()


def str_mcall(I, e, obj):
    n = e["n"]
    p = loc_of(I, obj, "str")
    S = I.load(p, e)
    av = lambda i: val(I, I.eval(e["a"][i]), e)
    if n in ("c_str", "data", "str"):
        return S
    if n.startswith("operator basic_string_view") or n.startswith("operator std::basic_string_view"):
        return S
    if n == "empty":
        return lift(lambda s: (TRUE if s.a == "" else FALSE) if s.tag == "str" else _strempty(s), S)
    if n in ("size", "length"):
        def length(x):
            if x.tag == "str":
                return num(len(x.a))
            if x.tag not in ("sym", "t"):
                return seq_size(x)
            t = T("strlen1", x)
            mark_nonneg(t)
            return ite(_strempty(x), ZERO, add(ONE, atom(t)))
        return lift(length, S)
    if n == "clear":
        I.store(p, strc(""), e)
        return VOID
    if n in ("operator=", "assign") and len(e["a"]) == 1:
        x = I.eval(e["a"][0])
        v = I.move_from(x, e) if e["a"][0].get("lv") == 2 and I.is_ptr(x) else val(I, x, e)
        I.store(p, v, e)
        return p
    if n in ("append", "operator+=", "push_back") and len(e["a"]) == 1:
        I.store(p, strcat(S, chars(I, e["a"][0], av(0))), e)
        return p
    if n in ("begin", "cbegin"):
        return mkiter(p, ZERO)
    if n in ("end", "cend"):
        return mkiter(p, seq_size(S))
    if n == "erase" and len(e["a"]) == 2:
        a, b = av(0), av(1)
        if a.tag == "rec" and a.a[0] == "rmiter":
            I.store(p, rec_get(a, "s"), e)
            return mkiter(p, seq_size(S))
    if n in ("operator==",):
        return c_eq(S, av(0))
    if n in ("starts_with", "ends_with", "contains") and len(e["a"]) == 1:
        return lift(lambda s, x: str_has(n, s, x), S, chars(I, e["a"][0], av(0)))
    if n in ("find", "rfind") and len(e["a"]) in (1, 2):
        ks = [av(i) for i in range(1, len(e["a"]))]
        d = num(0 if n == "find" else 2 ** 64 - 1)
        return lift(lambda s, x, k: str_find(n, s, x, k), S, chars(I, e["a"][0], av(0)), ks[0] if ks else d)
    if n == "substr" and len(e["a"]) <= 2:
        ks = [av(i) for i in range(len(e["a"]))]
        ks = (ks + [ZERO, num(2 ** 64 - 1)][len(ks):])[:2]
        return lift(str_sub, S, *ks)
    return unknown_call(I, e, [obj])


def str_has(n, s, x):
    if s.tag == "str" and x.tag == "str":
        return TRUE if {"starts_with": s.a.startswith, "ends_with": s.a.endswith, "contains": lambda y: y in s.a}[n](x.a) else FALSE
    if x.tag == "str" and x.a == "" or s is x:
        return TRUE
    if s.tag == "t" and s.a[0] == "strcat" and x.tag == "str" and n != "contains":
        z = s.a[1 if n == "starts_with" else -1]
        if z.tag == "str" and len(z.a) >= len(x.a):
            return str_has(n, z, x)
    return bvar(T("str" + n, s, x))


def str_find(n, s, x, k):
    c = nconst(k) if is_num(k) else None
    if s.tag == "str" and x.tag == "str" and c is not None:
        c = int(c)
        r = s.a.find(x.a, c) if n == "find" else s.a.rfind(x.a, 0, min(c, len(s.a)) + len(x.a))
        return num(r if r >= 0 else 2 ** 64 - 1)
    t = T("str" + n, s, x, k)
    mark_nonneg(t)
    return atom(t)


def str_sub(s, i, k):
    a, b = (nconst(x) if is_num(x) else None for x in (i, k))
    if s.tag == "str" and a is not None and b is not None and a <= len(s.a):
        return strc(s.a[int(a):int(min(a + b, len(s.a)))])
    if a == 0 and b == 2 ** 64 - 1:
        return s
    return T("substr", s, i, k)


def chars(I, e, v):
    """a character as a string"""
    d = I.t(e["t"])
    if d["k"] in ("lref", "rref"):
        d = strip(I.fr().T, d)
    if d["k"] == "int":
        c = nconst(v) if is_num(v) else None
        return strc(chr(int(c))) if c is not None and 0 < c < 128 else appt("chr", v)
    return v


def _strempty(s):
    if s.tag == "t" and s.a[0] == "strcat" and any(x.tag == "str" and x.a for x in s.a[1:]):
        return FALSE
    return c_eq(s, strc(""))


def box_mcall(I, e, obj):
    n = e["n"]
    p = loc_of(I, obj, "box")
    v = I.load(p, e)
    if n in ("operator*", "operator->"):
        def leaf(x):
            return rec_get(x, "null") if x.tag == "rec" and x.a[0] == "box" else FALSE
        nul = lift(leaf, v) if v.tag == "dec" else leaf(v)
        if nul is not FALSE:
            I.ubev(nul, "null dereference", e)
        return I.extend(p, ("box",))
    if n == "get":
        def leaf(x):
            return rec_get(x, "null") if x.tag == "rec" and x.a[0] == "box" else FALSE
        nul = lift(leaf, v) if v.tag == "dec" else leaf(v)
        return ite(nul, NULL, I.extend(p, ("box",)))
    if n == "operator bool":
        return I.tobool(v)
    if n in ("operator=", "reset"):
        if not e["a"]:
            I.store(p, rec_set(rec_set(v, "null", TRUE), "v", UNDEF), e)
            return p
        x = I.eval(e["a"][0])
        w = I.move_from(x, e) if e["a"][0].get("lv") == 2 and I.is_ptr(x) else val(I, x, e)
        if w is NULL:
            w = rec_set(rec_set(v, "null", TRUE), "v", UNDEF)
        I.store(p, w, e)
        return p
    return unknown_call(I, e, [obj])


def opt_mcall(I, e, obj):
    n = e["n"]
    p = loc_of(I, obj, "opt")
    v = I.load(p, e)
    if n in ("has_value", "operator bool"):
        return I.tobool(v)
    if n in ("operator*", "operator->", "value"):
        has = I.tobool(v)
        if n == "value":
            I.throw(T("exc", strc("std::bad_optional_access")), b_not(has))
        else:
            I.ubev(b_not(has), "dereference of an empty optional", e)
        return I.extend(p, ("opt",))
    if n == "value_or":
        d = val(I, I.eval(e["a"][0]), e)
        return merge(I.tobool(v), I.load(I.extend(p, ("opt",)), e), d)
    if n == "reset":
        I.store(p, rec("optional", {"has": FALSE, "v": UNDEF}), e)
        return VOID
    if n in ("operator=", "emplace") and len(e["a"]) == 1:
        x = I.eval(e["a"][0])
        w = I.move_from(x, e) if e["a"][0].get("lv") == 2 and I.is_ptr(x) else val(I, x, e)
        I.store(p, to_optional(w), e)
        return p
    return unknown_call(I, e, [obj])


def to_optional(w):
    if w.tag == "rec" and w.a[0] == "optional":
        return w
    if w.tag == "const" and w.a == "nullopt":
        return rec("optional", {"has": FALSE, "v": UNDEF})
    if w.tag == "dec" and _has_opt(w):
        return lift_struct(to_optional, w)
    return rec("optional", {"has": TRUE, "v": w})


def _has_opt(w):
    if w.tag == "dec":
        return _has_opt(w.a[1]) or _has_opt(w.a[2])
    return w.tag == "rec" and w.a[0] == "optional" or w.tag == "const"


def alt_index(alts, d):
    key = d.get("r") or d["s"]
    for i, a in enumerate(alts):
        if a == key:
            return i
    for i, a in enumerate(alts):
        if a.replace("const ", "") == key.replace("const ", ""):
            return i
    return None


def to_variant(I, T_, vd, xe, w):
    """value w of expression xe converted to variant type vd"""
    if w.tag == "vari":
        return w
    alts = [(T_[a["t"]].get("r") or T_[a["t"]]["s"]) for a in vd["ta"]]
    d = strip(T_, I.t(xe["t"]))
    k = alt_index(alts, d)
    if k is None:
        return I.unk("variant conversion", xe)
    return vari(alts, num(k), [w if i == k else UNDEF for i in range(len(alts))])


def emplace(I, T_, tid, es, ev, e):
    """value of type T_[tid] constructed from the evaluated arguments"""
    d = T_[tid]
    key = d.get("r")
    r = I.prog.records.get(key) if key else None
    if r and r.get("repo"):
        best = None
        for k, f in I.prog.functions.items():
            if f.get("cls") != key or not f.get("ctor") or len(f["params"]) != len(ev) or ("body" not in f and "inits" not in f):
                continue
            sc = 0
            for p, x in zip(f["params"], es):
                pd = f["_T"][p["t"]]
                ps, xs = strip(f["_T"], pd), strip(T_, I.t(x["t"]))
                if (ps.get("r") or ps.get("s")) != (xs.get("r") or xs.get("s")):
                    sc = None
                    break
                sc += 2
                if (pd["k"] == "lref") == (x.get("lv") == 1):
                    sc += 1
            if sc is not None and (best is None or sc > best[0]):
                best = (sc, f)
        if best:
            f = best[1]
            if f.get("ctor") in ("copy", "move"):
                return val(I, ev[0], e)
            args = [x if I.is_ptr(x) else ptr(I.alloc(x, "arg")) for x in ev]
            return I.construct(f, args, e)
        fs = r.get("fields", ())
        if r.get("aggregate") and len(ev) <= len(fs):
            pass
        return I.unk("construction in place", e)
    if len(ev) == 1:
        return val(I, ev[0], e)
    if not ev:
        return I.default_value(T_, tid, True)
    return I.unk("construction in place", e)


def in_place_variant(I, T_, vd, ip, e, ev):
    alts = [(T_[a["t"]].get("r") or T_[a["t"]]["s"]) for a in vd["ta"]]
    if tpl(ip) == "std::in_place_type_t":
        tid = ip["ta"][0]["t"]
        k = alt_index(alts, T_[tid])
    else:
        k = int(ip["ta"][0]["i"])
        tid = vd["ta"][k]["t"]
    if k is None:
        return I.unk("in_place variant", e)
    w = emplace(I, T_, tid, e["a"][1:], ev[1:], e)
    return vari(alts, num(k), [w if i == k else UNDEF for i in range(len(alts))])


def vari_mcall(I, e, obj):
    n = e["n"]
    p = loc_of(I, obj, "var")
    if n == "index":
        return I.load(p, e).a[1]
    if n == "operator=" and len(e["a"]) == 1:
        x = I.eval(e["a"][0])
        w = I.move_from(x, e) if e["a"][0].get("lv") == 2 and I.is_ptr(x) else val(I, x, e)
        old = I.load(p, e)
        if w.tag != "vari" and old.tag == "vari":
            k = alt_index(old.a[0], strip(I.fr().T, I.t(e["a"][0]["t"])))
            if k is None:
                w = I.unk("variant assignment", e)
            else:
                w = vari(old.a[0], num(k), [w if i == k else UNDEF for i in range(len(old.a[0]))])
        I.store(p, w, e)
        return p
    return unknown_call(I, e, [obj])


def chrono_mcall(I, e, obj):
    n = e["n"]
    v = val(I, obj, e)
    if n in ("count", "time_since_epoch"):
        return v
    if n in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator%="):
        p = loc_of(I, obj)
        b = val(I, I.eval(e["a"][0]), e)
        if n == "operator+=":
            b = add(v, b)
        elif n == "operator-=":
            b = sub(v, b)
        elif n != "operator=":
            b = I.unk(n, e)
        if n != "operator=":
            chrono_ovf(I, b, e)
        I.store(p, b, e)
        return p
    if n == "operator-" and not e["a"]:
        r = neg(v)
        chrono_ovf(I, r, e)
        return r
    if n in ("min", "max"):
        return I.unk(n, e)
    return unknown_call(I, e, [obj])


def chrono_ovf(I, r, e):
    if I.mode.overflow and not has_unk(r):
        c = b_or(c_gt(r, num(2 ** 63 - 1), True), c_lt(r, num(-2 ** 63), True))
        I.ubev(c, "signed overflow", e)


# ------------------------------------------------------------------ std free calls
def ratio_of(I, T_, d):
    """(num, den, is_float) of a duration/time_point type"""
    if tpl(d) == "std::chrono::time_point":
        d = T_[targ(T_, d, 1)]
    rep = T_[targ(T_, d, 0)]
    per = T_[targ(T_, d, 1)]
    a = per.get("ta", [])
    n_ = int(a[0]["i"]) if a else 1
    d_ = int(a[1]["i"]) if len(a) > 1 else 1
    return F(n_, d_), rep["k"] == "float", rep


def chrono_conv(I, T_, v, src, dst, e):
    rs, fs, _ = ratio_of(I, T_, src)
    rd, fd, rep = ratio_of(I, T_, dst)
    k = rs / rd
    if fd:
        if not fs:
            I.i2f.append((I.st.pc, v, I.loc(e)))
        r = mul(v, num(k))
        return app("f32", r) if rep.get("w", 64) < 64 else r
    if fs:
        return I.f2i(mul(v, num(k)), rep)
    if k.denominator == 1:
        r = mul(v, num(k))
        if k != 1:
            chrono_ovf(I, r, e)
        return r
    if k.numerator == 1:
        return I.idiv(v, num(k.denominator))
    return I.idiv(mul(v, num(k.numerator)), num(k.denominator))


def common_conv(I, T_, vals, ds, e):
    """operands brought to the common duration type"""
    rs = [ratio_of(I, T_, d) for d in ds]
    import math
    g = rs[0][0]
    for r in rs[1:]:
        a, b = g, r[0]
        g = F(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)
    out = []
    anyf = any(r[1] for r in rs)
    for v, r in zip(vals, rs):
        out.append(mul(v, num(r[0] / g)))
    return out, anyf


def call(I, e):
    q = e.get("q") or ""
    c = I.contracts.get("lib:" + q)
    if c:
        r = c(I, e, None, None)
        if r is not NotImplemented:
            return r
    n = q.rsplit("::", 1)[-1]
    if q in ("std::move", "std::forward", "std::as_const", "std::move_if_noexcept", "std::addressof", "std::__addressof"):
        v = I.eval(e["a"][0])
        if not I.is_ptr(v) and e.get("lv"):
            v = ptr(I.alloc(v, "tmp"))
        return v
    if q.startswith("Eigen::"):
        return eigen_call(I, e)
    T_ = I.fr().T
    ev = [I.eval(a) for a in e["a"]]
    av = None

    def A(i):
        return val(I, ev[i], e)
    if q in ("std::sin", "sin", "std::cos", "cos", "std::exp", "exp", "std::tan", "tan", "std::acos", "acos", "std::asin", "asin", "std::log", "log"):
        return fun(n, A(0))
    if n == "sqrt":
        return sqrt(A(0))
    if n in ("ceil", "floor", "round", "trunc"):
        return lift(lambda x: _rnd(n, tonum(x)), A(0))
    if n in ("fabs", "abs"):
        x = A(0)
        r = merge(c_lt(x, ZERO, I.t(e["t"])["k"] == "int"), neg(x), x)
        return r
    if n == "isfinite":
        return b_not(b_or(appb("isnan", A(0)), appb("isinf", A(0))))
    if n in ("isnan", "isinf"):
        return appb(n, A(0))
    if n in ("pow", "atan2", "hypot", "fmod", "fmin", "fmax"):
        if n == "pow":
            c = nconst(A(1))
            if c is not None and c.denominator == 1 and 0 <= c <= 6:
                r = ONE
                for _ in range(int(c)):
                    r = mul(r, A(0))
                return r
        if n == "hypot" and len(ev) == 2:
            return sqrt(add(mul(A(0), A(0)), mul(A(1), A(1))))
        if n in ("fmin", "fmax"):
            a, b = A(0), A(1)
            return merge(c_lt(a, b) if n == "fmax" else c_lt(b, a), b, a)
        return app(n, A(0), A(1))
    if q in ("std::max", "std::min") and len(ev) == 1 and A(0).tag == "seq" and all(x[0] == "one" and x[1] is TRUE for x in A(0).a) and A(0).a:
        xs = [x[2] for x in A(0).a]
        r = xs[0]
        for x in xs[1:]:
            r = ite(c_lt(r, x), x, r) if n == "max" else ite(c_lt(x, r), x, r)
        return r
    if q in ("std::max", "std::min") and len(ev) == 2:
        isint = I.t(e["a"][0]["t"])["k"] == "int" or tpl(strip(T_, I.t(e["a"][0]["t"]))) in CHRONO
        a, b = A(0), A(1)
        cnd = c_lt(a, b, isint) if n == "max" else c_lt(b, a, isint)
        pick = merge(cnd, b, a)
        return ptr(I.alloc(pick, "mm")) if e.get("lv") else pick
    if q == "std::clamp":
        isint = I.t(e["a"][0]["t"])["k"] == "int"
        x, lo, hi = A(0), A(1), A(2)
        r = merge(c_lt(x, lo, isint), lo, merge(c_lt(hi, x, isint), hi, x))
        return ptr(I.alloc(r, "cl"))
    if q in ("std::swap", "std::exchange"):
        p = loc_of(I, ev[0])
        if n == "exchange":
            old = I.load(p, e)
            I.store(p, A(1), e)
            return old
        r = loc_of(I, ev[1])
        a, b = I.load(p, e), I.load(r, e)
        I.store(p, b, e)
        I.store(r, a, e)
        return VOID
    if q == "std::make_pair":
        return rec("pair", {"first": A(0), "second": A(1)})
    if q in ("std::make_tuple", "std::forward_as_tuple"):
        return rec("tuple", {str(i): A(i) for i in range(len(ev))})
    if q == "std::tie":
        return rec("tied", {str(i): loc_of(I, ev[i]) for i in range(len(ev))})
    if q == "std::minmax" and len(ev) == 2:
        isint = I.t(e["a"][0]["t"])["k"] == "int"
        a, b = A(0), A(1)
        c = c_lt(b, a, isint)
        return rec("pair", {"first": merge(c, b, a), "second": merge(c, a, b)})
    if q == "std::make_optional" and len(ev) == 1:
        return rec("optional", {"has": TRUE, "v": A(0)})
    if q in ("std::make_shared", "std::make_unique"):
        return make_box(I, e, ev, n)
    if q.startswith("std::chrono::"):
        return chrono_call(I, e, ev, n)
    if q in ("std::get", "std::get_if", "std::holds_alternative"):
        return vari_call(I, e, ev, n)
    if q == "std::visit":
        return visit(I, e, ev)
    if q in ("std::find_if", "std::find_if_not", "std::any_of", "std::all_of", "std::none_of", "std::count_if", "std::for_each",
             "std::lower_bound", "std::upper_bound", "std::partition_point", "std::copy", "std::copy_n", "std::transform",
             "std::find", "std::remove", "std::accumulate", "std::reduce", "std::copy_if", "std::inner_product", "std::adjacent_find",
             "std::remove_if", "std::erase_if", "std::back_inserter", "std::fill", "std::is_sorted", "std::max_element", "std::min_element", "std::equal", "std::distance", "std::next", "std::prev", "std::advance"):
        return algo(I, e, ev, n)
    if q in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::empty", "std::ssize", "std::data"):
        p = loc_of(I, ev[0])
        S = I.load(p, e)
        if n in ("begin", "cbegin"):
            return mkiter(p, ZERO)
        if n in ("end", "cend"):
            return mkiter(p, seq_size(S))
        if n in ("size", "ssize"):
            return seq_size(S)
        if n == "empty":
            return c_eq(seq_size(S), ZERO, True)
        return p
    if n.startswith("operator") and q.startswith(("std::", "__gnu_cxx::", "google::", "Eigen::", "fmt::")) or n.startswith("operator"):
        return op_call(I, e, ev, n[8:])
    if q == "std::to_string":
        return to_text(A(0))
    if q.startswith("fmt::"):
        if n == "format":
            vs = [val(I, x, e) for x in ev]
            f = fmt_expand(vs)
            return f if f is not None else lift(lambda *x: T("format", *x), *[flatten(v) for v in vs])
        return appt("fmt", *[A(i) for i in range(len(ev)) if ev[i] is not None][:0]) if False else T("fmtarg", strc(n))
    if n == "uuid_generate" or n in ("uuid_generate_random", "uuid_generate_time"):
        I.cells += 1
        x = T("fresh-uuid", num(len([1 for _, f in I.effects if f.tag == "t" and f.a[0] == "gen-uuid"])))
        I.effect(T("gen-uuid"))
        I.store(ev[0], x, e)
        return VOID
    if n == "uuid_parse":
        s = A(0)
        bad = uuid_invalid(s)
        I.store(ev[1], ite(bad, I.load(ev[1], e), uuid_of(s)), e)
        return ite(bad, num(-1), ZERO)
    if n in ("uuid_unparse_lower", "uuid_unparse"):
        x = val(I, ev[0], e)
        t = appt("uuid_text" if n == "uuid_unparse_lower" else "uuid_text_default", x)
        I.store(ev[1], t, e)
        return VOID
    if n == "uuid_is_null":
        return ite(c_eq(A(0), seq([("one", TRUE, ZERO)] * 16)), ONE, ZERO)
    if n in ("__builtin_add_overflow", "__builtin_sub_overflow", "__builtin_mul_overflow", "__builtin_saddl_overflow",
             "__builtin_ssubl_overflow", "__builtin_smull_overflow") and len(ev) == 3:
        t = I.t(e["a"][2]["t"])
        d = I.t(t["p"]) if t["k"] == "ptr" else {}
        if d.get("k") == "int" and d.get("w") and is_num(A(0)) and is_num(A(1)):
            r = (add if "add" in n else sub if "sub" in n else mul)(A(0), A(1))
            w, sg = int(d["w"]), bool(d.get("sg"))
            lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)
            o = b_or(c_gt(r, num(hi), True), c_lt(r, num(lo), True))
            I.store(ev[2], merge(o, atom(T("wrap", r, w, sg)), r), e)
            return o
        return unknown_call(I, e, ev)
    if n in ("uuid_compare", "memcmp", "__builtin_memcmp"):
        a, b = A(0), A(1)
        if n != "uuid_compare":
            k, sz = nconst(A(2)), nconst(seq_size(a))
            if k is None or sz is None or seq_size(b) is not seq_size(a) or k > sz:
                return unknown_call(I, e, ev)
            if k < sz:
                c = TRUE
                for j in range(int(k)):
                    c = b_and(c, c_eq(seq_at(a, num(j)), seq_at(b, num(j))))
                return ite(c, ZERO, ite(bvar(T("cmp<", a, b, num(k))), num(-1), ONE))
        return ite(c_eq(a, b), ZERO, ite(bvar(T("cmp<", a, b)), num(-1), ONE))
    if q == "google::protobuf::util::MessageToJsonString" and len(ev) >= 2:
        keep = FALSE
        if len(ev) > 2:
            o = A(2)
            keep = rec_get(o, "preserve_proto_field_names") if o.tag == "rec" and "preserve_proto_field_names" in dict(o.a[1]) else I.unk("print options", e)
        I.store(loc_of(I, ev[1]), lift(lambda m, k: T("json", m, k), A(0), keep), e)
        return lift(lambda m: rec("pbstatus", {"ok": bvar(T("tojsonok", m))}), A(0))
    if q == "google::protobuf::util::JsonStringToMessage" and len(ev) >= 2:
        p = loc_of(I, ev[1])
        m = I.load(p, e)
        if is_msg(m):
            s = A(0)
            I.store(p, lift(lambda x: pb_sym(I, m.a[0][3:], T("parsed", x)), s), e)
            return lift(lambda x: rec("pbstatus", {"ok": bvar(T("fromjsonok", x))}), s)
    if q.startswith("google::"):
        return unknown_call(I, e, ev)
    if n == "getenv":
        return appt("getenv", A(0))
    if q == "std::isnan":
        return appb("isnan", A(0))
    return unknown_call(I, e, ev)


def _rnd(n, x):
    import math
    c = nconst(x)
    if c is not None:
        if n == "ceil":
            return num(math.ceil(c))
        if n == "floor":
            return num(math.floor(c))
        if n == "trunc":
            return num(int(c))
        f = math.floor(abs(c) + F(1, 2))
        return num(f if c >= 0 else -f)
    return atom(T(n, x))


def uuid_invalid(s):
    """the text s is no identifier"""
    return lift(lambda x: FALSE if x.tag == "t" and x.a[0] in ("uuid_text", "uuid_text_default") else b_not(bvar(T("uuid_valid", x))), s)


def uuid_of(s):
    return lift(lambda x: x.a[1] if x.tag == "t" and x.a[0] in ("uuid_text", "uuid_text_default") else T("uuid_of", x), s)


def uuid_text(x):
    return appt("uuid_text", x)


def to_text(v):
    """the decimal text of a number; strings are themselves"""
    return lift(lambda x: x if x.tag != "num" else appt("to_string", x), v)


def fmt_expand(vs):
    """fmt::format with a constant format and plain replacement fields as a concatenation"""
    vs = list(vs)
    style = None

    def fstr(v):
        if v.tag == "t" and v.a[0].startswith("new:fmt::") and len(v.a) == 2:
            v = v.a[1]
        return v.a if v.tag == "str" else None
    if vs and fstr(vs[0]) is None and len(vs) > 1 and fstr(vs[1]) is not None:
        style = vs.pop(0)
    f = fstr(vs[0]) if vs else None
    if f is None:
        return None
    args, out, i, auto = vs[1:], strc(""), 0, 0
    while i < len(f):
        c = f[i]
        if f[i:i + 2] in ("{{", "}}"):
            out, i = strcat(out, strc(c)), i + 2
        elif c == "{":
            j = f.find("}", i)
            if j < 0:
                return None
            k = f[i + 1:j]
            if k == "":
                k, auto = auto, auto + 1
            elif not k.isdigit():
                return None
            if int(k) >= len(args) or args[int(k)].tag in ("mat", "rec", "seq", "bool"):
                return None
            out, i = strcat(out, to_text(args[int(k)])), j + 1
        else:
            out, i = strcat(out, strc(c)), i + 1
    return out if style is None else lift(lambda a, b: T("styled", a, b), flatten(style), out)


def make_box(I, e, ev, n):
    ta = [x["t"] for x in e.get("ta", ()) if "t" in x]
    T_ = I.fr().T
    d = T_[ta[0]] if ta else None
    v = None
    if not ev and ta:
        v = I.default_value(T_, ta[0], True)
    elif len(ev) == 1 and d is not None:
        ad = strip(T_, I.t(e["a"][0]["t"]))
        if (ad.get("r") or ad["s"]) == (d.get("r") or d["s"]):
            v = I.move_from(ev[0], e) if e["a"][0].get("lv") == 2 and I.is_ptr(ev[0]) else val(I, ev[0], e)
    if v is None:
        v = construct_from(I, T_, d, e, ev) if d is not None else None
    if v is None:
        v = I.unk("%s" % n, e)
    f = {"null": FALSE, "v": v}
    if n == "make_shared":
        f["shared"] = TRUE
    return rec("box", f)


def construct_from(I, T_, d, e, ev):
    """construct repo record d from evaluated arguments by matching constructor parameter types"""
    r = I.prog.records.get(d.get("r"))
    if not r or not r.get("repo"):
        return None
    ads = [strip(T_, I.t(a["t"])) for a in e["a"]]
    want = [(a.get("r") or a["s"]) for a in ads]
    for m in r.get("methods", ()):
        if m.get("ctor") and m["key"] in I.prog.functions:
            f = I.prog.functions[m["key"]]
            ps = [strip(f["_T"], f["_T"][p["t"]]) for p in f["params"]]
            if [(p.get("r") or p["s"]) for p in ps] == want:
                ev = [x if I.isref(f["_T"][p["t"]]) or not I.is_ptr(x) else
                      I.move_from(x, e) if a.get("lv") == 2 else I.load(x, e) for x, p, a in zip(ev, f["params"], e["a"])]
                return I.construct(f, ev, e)
    return None


def chrono_call(I, e, ev, n):
    T_ = I.fr().T
    A = lambda i: val(I, ev[i], e)
    ds = [strip(T_, I.t(a["t"])) for a in e["a"]]
    rd = strip(T_, I.t(e["t"]))
    if n in ("duration_cast", "time_point_cast"):
        return chrono_conv(I, T_, A(0), ds[0], rd, e)
    if n in ("floor", "ceil", "round"):
        return I.unk("chrono " + n, e)
    if n.startswith("operator"):
        op = n[8:]
        if op in ("+", "-"):
            (a, b), fl = common_conv(I, T_, [A(0), A(1)], ds, e)
            r = add(a, b) if op == "+" else sub(a, b)
            if not fl:
                chrono_ovf(I, r, e)
            return r
        if op in ("==", "!=", "<", ">", "<=", ">="):
            (a, b), fl = common_conv(I, T_, [A(0), A(1)], ds, e)
            f = {"==": c_eq, "<": c_lt, ">": c_gt, "<=": c_le, ">=": c_ge}.get(op)
            if op == "!=":
                return b_not(c_eq(a, b, not fl))
            return f(a, b, not fl)
        if op == "<=>":
            (a, b), fl = common_conv(I, T_, [A(0), A(1)], ds, e)
            return rec("ordering", {"a": a, "b": b, "i": FALSE if fl else TRUE})
        if op in ("*", "/", "%"):
            isd = [tpl(d) in CHRONO for d in ds]
            if op == "*":
                r = mul(A(0), A(1))
                if not ratio_of(I, T_, rd)[1]:
                    chrono_ovf(I, r, e)
                return r
            if all(isd):
                (a, b), fl = common_conv(I, T_, [A(0), A(1)], ds, e)
                if fl:
                    return div(a, b)
                return I.idiv(a, b) if op == "/" else I.imod(a, b)
            fl = ratio_of(I, T_, ds[0])[1] or I.t(e["a"][1]["t"])["k"] == "float"
            if fl:
                return div(A(0), A(1))
            return I.idiv(A(0), A(1)) if op == "/" else I.imod(A(0), A(1))
    if n == "zero" and not ev:
        return num(0)
    if n in ("max", "min") and not ev and tpl(rd) in CHRONO and not ratio_of(I, T_, rd)[1]:
        return num(2 ** 63 - 1 if n == "max" else -2 ** 63)
    if n == "now":
        I.cells += 1
        return atom(T("now", sym("t%d" % I.cells)))
    return unknown_call(I, e, ev)


def members_in_order(I, T_, d, v, e):
    """the members of a pair or a tuple, in the order in which they are compared"""
    if v.tag != "rec" or v.a[0] not in ("pair", "tuple", "tied"):
        return None
    m = [x for _, x in sorted(v.a[1])]
    if v.a[0] == "tied":
        m = [I.load(x, e) if I.is_ptr(x) else x for x in m]
    ts = [T_[x["t"]] for x in d.get("ta", ()) if "t" in x]
    if len(ts) != len(m):
        return None
    return list(zip(m, [strip(T_, t) for t in ts]))


def lexicographic(I, T_, d0, d1, a, b, e):
    """-1, 0 or 1: pairs and tuples are compared member by member"""
    x, y = members_in_order(I, T_, d0, a, e), members_in_order(I, T_, d1, b, e)
    if x is None or y is None or len(x) != len(y):
        return None
    r = num(0)
    for (u, t), (v, _) in reversed(list(zip(x, y))):
        if not (is_num(u) and is_num(v)):
            return None
        i = t["k"] == "int" or tpl(t) in CHRONO and not ratio_of(I, T_, t)[1]
        r = merge(c_lt(u, v, i), num(-1), merge(c_gt(u, v, i), num(1), r))
    return r


def op_call(I, e, ev, op):
    T_ = I.fr().T
    if op in ("<=>", "<", ">", "<=", ">=") and len(ev) == 2 and tpl(strip(T_, I.t(e["a"][0]["t"]))) in ("std::pair", "std::tuple"):
        ds = [strip(T_, I.t(x["t"])) for x in e["a"]]
        r = lexicographic(I, T_, ds[0], ds[1], val(I, ev[0], e), val(I, ev[1], e), e)
        if r is not None:
            if op == "<=>":
                return rec("ordering", {"a": r, "b": num(0), "i": TRUE})
            return {"<": c_lt, ">": c_gt, "<=": c_le, ">=": c_ge}[op](r, num(0), True)
    A = lambda i: val(I, ev[i], e)
    d0 = strip(T_, I.t(e["a"][0]["t"])) if e["a"] else {}
    a = A(0)
    if a.tag == "rec" and a.a[0] == "ordering":
        x, y = rec_get(a, "a"), rec_get(a, "b")
        isint = rec_get(a, "i") is TRUE
        f = {"<": c_lt, ">": c_gt, "<=": c_le, ">=": c_ge, "==": c_eq}.get(op)
        if f:
            return f(x, y, isint)
        if op == "!=":
            return b_not(c_eq(x, y, isint))
    if len(ev) == 2:
        b = A(1)
        if b.tag == "rec" and b.a[0] == "ordering":
            x, y = rec_get(b, "a"), rec_get(b, "b")
            isint = rec_get(b, "i") is TRUE
            f = {"<": c_gt, ">": c_lt, "<=": c_ge, ">=": c_le, "==": c_eq}.get(op)
            if f:
                return f(x, y, isint)
        if a.tag == "rec" and a.a[0] == "iter" and b.tag == "rec" and b.a[0] == "iter":
            if op == "-":
                return sub(rec_get(a, "i"), rec_get(b, "i"))
            if op == "<=>":
                return rec("ordering", {"a": rec_get(a, "i"), "b": rec_get(b, "i"), "i": TRUE})
            return iter_cmp(op, a, b)
        t = tpl(d0)
        if op in ("==", "!="):
            if a.tag == "rec" and a.a[0] == "box" or b.tag == "rec" and b.a[0] == "box":
                r = I.ptr_eq(a, b, False)
            elif a.tag == "rec" and a.a[0] == "optional" and b.tag == "const":
                r = b_not(rec_get(a, "has"))
            elif a.tag == "rec" and a.a[0] == "optional" and b.tag == "rec" and b.a[0] == "optional":
                ha, hb = rec_get(a, "has"), rec_get(b, "has")
                r = b_or(b_and(b_not(ha), b_not(hb)), b_and(b_and(ha, hb), c_eq(rec_get(a, "v"), rec_get(b, "v"))))
            elif t.startswith("std::_Put") or a.tag == "unk":
                r = lit(mk_atom("b", T("unk?==", a, b)))
            else:
                r = c_eq(a, b)
            return r if op == "==" else b_not(r)
        if op == "+" and (t == "std::basic_string" or is_string(a) or is_string(b) or tpl(strip(T_, I.t(e["t"]))) == "std::basic_string"):
            return strcat(a, b)
        if op == "<<":
            p = loc_of(I, ev[0])
            v = I.load(p, e)
            if v.tag == "rec" and v.a[0] == "stream":
                return stream_put(I, p, b, e)
            return p
        if op == "<" and t == "std::basic_string":
            return appb("lt", a, b)
        if op == "/" and "filesystem" in t:
            return appt("path/", a, b)
    return unknown_call(I, e, ev)


def vari_call(I, e, ev, n):
    T_ = I.fr().T
    if n == "get" and ev and tpl(strip(T_, I.t(e["a"][0]["t"]))) == "std::pair":
        k = int(e["ta"][0].get("i", 0))
        return I.extend(loc_of(I, ev[0]), ("f", "first" if k == 0 else "second"))
    if n == "get" and ev and tpl(strip(T_, I.t(e["a"][0]["t"]))) == "std::tuple" and "i" in e["ta"][0]:
        q = I.extend(loc_of(I, ev[0]), ("f", str(int(e["ta"][0]["i"]))))
        w = I.load(loc_of(I, ev[0]), e)
        return rec_get(w, str(int(e["ta"][0]["i"]))) if w.tag == "rec" and w.a[0] == "tied" else q
    if n == "get" and ev and tpl(strip(T_, I.t(e["a"][0]["t"]))) == "std::array":
        return I.extend(loc_of(I, ev[0]), ("i", num(int(e["ta"][0]["i"]))))
    p = loc_of(I, ev[0])
    v = I.load(p, e)
    if v.tag != "vari":
        return unknown_call(I, e, ev)
    ta = e["ta"][0]
    k = int(ta["i"]) if "i" in ta else alt_index(v.a[0], T_[ta["t"]])
    if k is None:
        return unknown_call(I, e, ev)
    here = c_eq(v.a[1], num(k), True)
    if n == "holds_alternative":
        return here
    if n == "get_if":
        return ite(here, I.extend(p, ("alt", k)), NULL)
    I.throw(T("exc", strc("std::bad_variant_access")), b_not(here))
    return I.extend(p, ("alt", k))


def closures_of(v):
    if v.tag == "clo":
        return [v]
    if v.tag == "rec":
        out = []
        for k, x in v.a[1]:
            out += closures_of(x)
        return out
    return []


def visit(I, e, ev):
    T_ = I.fr().T
    f = val(I, ev[0], e)
    if len(ev) != 2:
        return unknown_call(I, e, ev)
    p = loc_of(I, ev[1])
    v = I.load(p, e)
    if v.tag != "vari":
        return unknown_call(I, e, ev)
    cl = closures_of(f)
    alts = v.a[0]
    if not cl:
        return unknown_call(I, e, ev)

    def run(k):
        best = None
        for c in cl:
            for op in c.a[0]:
                fn = I.prog.functions.get(op)
                if fn is None or len(fn["params"]) != 1:
                    continue
                d = strip(fn["_T"], fn["_T"][fn["params"][0]["t"]])
                if (d.get("r") or d["s"]) == alts[k] or (d.get("r") or d["s"]).replace("const ", "") == alts[k]:
                    best = (c, op)
        if best is None:
            return I.unk("visitor for %s" % alts[k], e)
        return I.call_clo(best[0], [I.extend(p, ("alt", k))], e, best[1])

    def go(k):
        if k == len(alts) - 1:
            return run(k)
        return I.branch(c_eq(v.a[1], num(k), True), lambda: run(k), lambda: go(k + 1))
    return go(0)


def algo(I, e, ev, n):
    A = lambda i: val(I, ev[i], e)
    if n in ("next", "prev", "distance", "advance"):
        a = A(0)
        if a.tag == "rec" and a.a[0] == "iter":
            if n == "distance":
                return sub(rec_get(A(1), "i"), rec_get(a, "i"))
            k = A(1) if len(ev) > 1 else ONE
            j = add(rec_get(a, "i"), k) if n != "prev" else sub(rec_get(a, "i"), k)
            if n == "advance":
                I.store(loc_of(I, ev[0]), mkiter(rec_get(a, "c"), j), e)
                return VOID
            return mkiter(rec_get(a, "c"), j)
        return unknown_call(I, e, ev)
    if n == "back_inserter":
        return rec("backins", {"c": loc_of(I, ev[0])})
    if n == "erase_if":
        p = loc_of(I, ev[0])
        S = I.load(p, e)
        r = filtered(I, S, A(1), e, False)
        if r is None:
            return unknown_call(I, e, ev)
        I.store(p, r, e)
        return sub(seq_size(S), seq_size(r))
    a = A(0)
    b = A(1) if len(ev) > 1 else None
    if n == "copy_n" and isiter(a) and is_num(b):
        n, b = "copy", mkiter(rec_get(a, "c"), add(rec_get(a, "i"), b))
    r = algo_loop(I, e, ev, n, a, b, A)
    if r is not None:
        return r
    if n == "remove_if" and isiter(a) and isiter(b):
        S = I.load(rec_get(a, "c"), e)
        if rec_get(a, "i") is ZERO and rec_get(b, "i") is seq_size(S):
            s = filtered(I, S, A(2), e, False)
            if s is not None:
                return rec("rmiter", {"s": s})
        return unknown_call(I, e, ev)
    if n == "remove" and a.tag == "rec" and a.a[0] == "iter":
        S = I.load(rec_get(a, "c"), e)
        if rec_get(a, "i") is ZERO and rec_get(b, "i") is seq_size(S):
            def drop(x, c):
                k = nconst(c) if is_num(c) else None
                return strc(x.a.replace(chr(int(k)), "")) if x.tag == "str" and k is not None and 0 < k < 128 else T("without", x, c)
            return rec("rmiter", {"s": lift(drop, S, A(2))})
        return unknown_call(I, e, ev)
    if n == "copy":
        s = iter_slice(I, a, b, e)
        d = A(2)
        if s is not None and d.tag == "rec" and d.a[0] == "iter":
            copy_into(I, s, d, e)
            return mkiter(rec_get(d, "c"), add(rec_get(d, "i"), seq_size(s)))
        return unknown_call(I, e, ev)
    if n == "equal" and len(ev) == 3:
        c = A(2)
        if any(x.tag != "rec" or x.a[0] != "iter" for x in (a, b, c)):
            return unknown_call(I, e, ev)
        k = nconst(sub(rec_get(b, "i"), rec_get(a, "i")))
        if k is None or k < 0 or k > 64:
            return unknown_call(I, e, ev)
        r = TRUE
        for j in range(int(k)):
            x, y = (I.load(I.extend(rec_get(z, "c"), ("i", add(rec_get(z, "i"), num(j)))), e) for z in (a, c))
            r = b_and(r, c_eq(x, y))
        return r
    if n in ("find_if", "find_if_not", "any_of", "all_of", "none_of", "lower_bound", "upper_bound", "partition_point", "count_if", "find"):
        if a.tag != "rec" or a.a[0] != "iter" or b.tag != "rec":
            return unknown_call(I, e, ev)
        c = rec_get(a, "c")
        i0, i1 = rec_get(a, "i"), rec_get(b, "i")
        k = sym("f%d" % I.cells)
        I.cells += 1
        mark_nonneg(k)
        before = (len(I.effects), len(I.ub))
        el = I.extend(c, ("i", add(i0, atom(k))))
        if n in ("lower_bound", "upper_bound"):
            v = ev[2]
            if not I.is_ptr(v):
                v = ptr(I.alloc(v, "key"))
            if len(ev) > 3:
                f = A(3)
                r = I.call_clo(f, [el, v] if n == "lower_bound" else [v, el], e)
                r = I.tobool(val(I, r, e))
            else:
                x, y = I.load(el, e), I.load(v, e)
                r = c_lt(x, y) if n == "lower_bound" else c_lt(y, x)
            cond = b_not(r) if n == "lower_bound" else r
        elif n == "find":
            cond = c_eq(I.load(el, e), A(2))
        else:
            r = I.call_clo(A(2), [el], e)
            cond = I.tobool(val(I, r, e))
            if n in ("find_if_not", "all_of", "partition_point"):
                cond = b_not(cond)
        del I.effects[before[0]:]
        del I.ub[before[1]:]
        cnt = sub(i1, i0)
        if n in ("any_of", "all_of", "none_of"):
            ex = mk_exists(cnt, k, cond)
            return ex if n == "any_of" else b_not(ex)
        # lower_bound etc. equal the first element where cond holds when the range is partitioned;
        # on ranges that are not, the result differs: kept as a distinct search
        fst = mk_first(cnt, k, cond)
        return mkiter(c, add(i0, fst))
    return unknown_call(I, e, ev)


def isiter(x):
    return x is not None and x.tag == "rec" and x.a[0] == "iter"


def filtered(I, S, f, e, want):
    """the elements on which the predicate is `want`, in order"""
    leaves = []
    lift(lambda x: leaves.append(x) or x, S)
    if all(x.tag == "str" for x in leaves):
        def leaf(x):
            keep = ""
            for ch in x.a:
                c = I.tobool(val(I, I.call_clo(f, [ptr(I.alloc(num(ord(ch)), "el"))], e), e))
                if c not in (TRUE, FALSE):
                    return I.unk("filter of characters", e)
                keep += ch if (c is TRUE) == want else ""
            return strc(keep)
        return lift(leaf, S)
    if S.tag == "dec" or S.tag == "unk":
        return None

    def test(x):
        before = (len(I.effects), len(I.ub))
        r = I.tobool(val(I, I.call_clo(f, [ptr(I.alloc(x, "el"))], e), e))
        if len(I.effects) != before[0]:
            return None
        return r if want else b_not(r)
    out = []
    for p in as_parts(S):
        if p[0] == "one":
            c = test(p[2])
            if c is None:
                return None
            c = b_and(p[1], c)
            if c is not FALSE:
                out.append(("one", c, p[2]))
            continue
        k = sym("fl%d" % I.cells)
        I.cells += 1
        mark_nonneg(k)
        n, x, g = (seq_size(p[1]), seq_at(p[1], atom(k)), TRUE) if p[0] == "all" else (p[1], subst(p[3], {p[2]: atom(k)}), subst(p[4], {p[2]: atom(k)}))
        c = test(x)
        if c is None:
            return None
        out += IN().norm_map(n, k, x, b_and(g, c))
    return seq(out)


def IN():
    from . import interp
    return interp


def algo_loop(I, e, ev, n, a, b, A):
    """algorithms that are loops over [a, b)"""
    if not isiter(a) or not isiter(b):
        return None
    c, i0, i1 = rec_get(a, "c"), rec_get(a, "i"), rec_get(b, "i")
    cnt = sub(i1, i0)
    idx = ptr(I.alloc(ZERO, "$idx"))

    def over(fn):
        I.store(idx, ZERO)
        I.loop(lambda: c_lt(I.load(idx), cnt, True),
               lambda: fn(I.extend(c, ("i", add(i0, I.load(idx)))), I.load(idx)),
               lambda: I.store(idx, add(I.load(idx), ONE)), e, IN().seq_max(I.load(c, e)))

    def call(f, args):
        return val(I, I.call_clo(f, args, e), e)

    def tmp(v):
        return ptr(I.alloc(v, "acc"))

    def out_of(d):
        if d.tag == "rec" and d.a[0] == "backins":
            def put(v, k):
                I.store(rec_get(d, "c"), seq_push(I.load(rec_get(d, "c"), e), v), e)
            return put, lambda: d
        if isiter(d):
            oc, oi = rec_get(d, "c"), rec_get(d, "i")

            def put(v, k):
                j = add(oi, k)
                sz = seq_size(I.load(oc, e))
                if not has_unk(j) and not has_unk(sz):
                    I.ubev(b_not(b_and(c_ge(j, ZERO, True), c_lt(j, sz, True))), "write past the end", e)
                I.store(I.extend(oc, ("i", j)), v, e)
            return put, lambda: mkiter(oc, add(oi, cnt))
        return None, None

    def plus(x, y):
        return lift(lambda u, w: add(tonum(u), tonum(w)), x, y)
    simple = lambda v: v.tag in ("num", "dec", "bool")
    if n in ("accumulate", "reduce"):
        init = A(2) if len(ev) > 2 else ZERO
        op = A(3) if len(ev) > 3 else None
        if op is not None and op.tag not in ("clo", "fn"):
            return None
        if op is None and not simple(init):
            return None
        acc = ptr(I.alloc(init, "acc"))

        def body(el, k):
            I.store(acc, plus(I.load(acc), I.load(el, e)) if op is None else call(op, [tmp(I.load(acc)), el]), e)
        over(body)
        return I.load(acc)
    if n == "inner_product" and len(ev) == 4 and isiter(A(2)):
        c2, j0 = rec_get(A(2), "c"), rec_get(A(2), "i")
        acc = ptr(I.alloc(A(3), "acc"))
        over(lambda el, k: I.store(acc, plus(I.load(acc), mul(I.load(el, e), I.load(I.extend(c2, ("i", add(j0, k))), e))), e))
        return I.load(acc)
    if n == "for_each" and len(ev) == 3:
        f = A(2)
        over(lambda el, k: I.call_clo(f, [el], e) and None)
        return f
    if n == "count_if" and len(ev) == 3:
        acc = ptr(I.alloc(ZERO, "acc"))
        f = A(2)
        over(lambda el, k: I.store(acc, add(I.load(acc), ite(I.tobool(call(f, [el])), ONE, ZERO)), e))
        return I.load(acc)
    if n == "transform" and len(ev) in (4, 5):
        put, done = out_of(A(len(ev) - 2))
        if put is None:
            return None
        f = A(len(ev) - 1)
        if len(ev) == 4:
            over(lambda el, k: put(call(f, [el]), k))
        else:
            z = A(2)
            if not isiter(z):
                return None
            over(lambda el, k: put(call(f, [el, I.extend(rec_get(z, "c"), ("i", add(rec_get(z, "i"), k)))]), k))
        return done()
    if n in ("copy", "copy_if") and A(2).tag == "rec" and A(2).a[0] == "backins":
        put, done = out_of(A(2))
        if n == "copy":
            over(lambda el, k: put(I.load(el, e), k))
        else:
            S = iter_slice(I, a, b, e)
            r = filtered(I, S, A(3), e, True) if S is not None else None
            if r is None:
                return None
            d = rec_get(A(2), "c")
            I.store(d, seq_concat(I.load(d, e), r), e)
        return done()
    if n == "copy" and isiter(A(2)) and not ismat(I.load(rec_get(A(2), "c"), e)):
        put, done = out_of(A(2))
        over(lambda el, k: put(I.load(el, e), k))
        return done()
    if n == "fill" and len(ev) == 3:
        v = A(2)
        over(lambda el, k: I.store(el, v, e))
        return VOID
    if n == "adjacent_find" and len(ev) in (2, 3):
        k = sym("f%d" % I.cells)
        I.cells += 1
        mark_nonneg(k)
        before = (len(I.effects), len(I.ub))
        x, y = I.extend(c, ("i", add(i0, atom(k)))), I.extend(c, ("i", add(add(i0, atom(k)), ONE)))
        cond = I.tobool(call(A(2), [x, y])) if len(ev) == 3 else c_eq(I.load(x, e), I.load(y, e))
        del I.effects[before[0]:]
        del I.ub[before[1]:]
        m = ite(c_ge(cnt, ONE, True), sub(cnt, ONE), ZERO)
        fst = mk_first(m, k, cond)
        return mkiter(c, ite(mk_exists(m, k, cond), add(i0, fst), i1))
    return None


def copy_into(I, s, d, e):
    c, i = rec_get(d, "c"), rec_get(d, "i")
    cur = I.load(c, e)
    if ismat(cur) and i is ZERO and nconst(seq_size(cur)) is not None:
        n = int(nconst(seq_size(cur)))
        I.ubev(c_gt(seq_size(s), num(n), True), "copy past the end", e)
        for k in range(n):
            v = seq_at(s, num(k))
            inr = c_lt(num(k), seq_size(s), True)
            old = I.load(I.extend(c, ("i", num(k))), e)
            I.store(I.extend(c, ("i", num(k))), merge(inr, v, old), e)
        return
    I.store(c, I.unk("copy into container", e), e)


# ------------------------------------------------------------------ constructors of library types
def construct(I, e, d):
    t = tpl(d)
    T_ = I.fr().T
    kind = e["ctor"]
    c = I.contracts.get("lib:" + (e.get("q") or ""))
    if c:
        r = c(I, e, None, None)
        if r is not NotImplemented:
            return r
    if t.startswith("Eigen::"):
        return eigen_construct(I, e, d)
    if t in ("google::protobuf::util::JsonPrintOptions", "google::protobuf::util::JsonOptions") and not e["a"]:
        return rec("jsonopts", {k: FALSE for k in ("add_whitespace", "always_print_primitive_fields", "always_print_enums_as_ints", "preserve_proto_field_names")})
    if t.endswith("::StringPiece") and len(e["a"]) == 1:
        return val(I, I.eval(e["a"][0]), e)
    if kind == "default" or not e["a"]:
        m = default_record(I, T_, d, True)
        if m is not None:
            return m
        return T("default", strc(d["s"]))
    ev = [I.eval(a) for a in e["a"]]
    a0 = e["a"][0]

    def first():
        if kind == "move" and I.is_ptr(ev[0]):
            return I.move_from(ev[0], e)
        if a0.get("lv") == 2 and I.is_ptr(ev[0]):
            return I.move_from(ev[0], e)
        return val(I, ev[0], e)
    if kind in ("copy", "move"):
        return first()
    A = lambda i: val(I, ev[i], e)
    if t in CHRONO:
        ad = strip(T_, I.t(a0["t"]))
        if tpl(ad) in CHRONO:
            return chrono_conv(I, T_, A(0), ad, d, e)
        return A(0)
    if t == "std::optional":
        v = first()
        return to_optional(v)
    if t == "std::variant":
        ip = strip(T_, I.t(a0["t"]))
        if tpl(ip) in ("std::in_place_type_t", "std::in_place_index_t"):
            return in_place_variant(I, T_, d, ip, e, ev)
        v = first()
        return to_variant(I, T_, d, a0, v)
    if t in ("std::unique_ptr", "std::shared_ptr"):
        v = first()
        if v is NULL:
            return default_record(I, T_, d, True)
        if v.tag == "rec" and v.a[0] == "box":
            if t == "std::shared_ptr":
                return rec_set(v, "shared", TRUE)
            return v
        if v.tag == "ptr":
            f = {"null": FALSE, "v": I.load(v, e)}
            if t == "std::shared_ptr":
                f["shared"] = TRUE
            return rec("box", f)
        return I.unk("smart pointer", e)
    if t in ("std::basic_string", "std::basic_string_view"):
        if len(ev) >= 1:
            v = first()
            ad = strip(T_, I.t(a0["t"]))
            if len(ev) == 2 and "allocator" not in strip(T_, I.t(e["a"][1]["t"]))["s"]:
                x = A(1)
                if v.tag == "rec" and v.a[0] == "iter":
                    s = iter_slice(I, v, x, e)
                    return appt("string", s) if s is not None else I.unk("string", e)
                return appt("string", v, x)
            if v is NULL:
                I.ubev(TRUE, "string from a null pointer", e)
            return v
    if t in ("std::vector", "std::array", "std::initializer_list", "google::protobuf::RepeatedField"):
        if len(ev) == 1 or (len(ev) == 2 and "allocator" in strip(T_, I.t(e["a"][1]["t"]))["s"]):
            ad = strip(T_, I.t(a0["t"]))
            if ad["k"] == "int" and t == "std::vector":
                if A(0).tag == "num" and not has_unk(A(0)):
                    return seq(sized(A(0), I.default_value(T_, d["ta"][0]["t"], True)))
            if ad["k"] == "int":
                return I.unk("sized container", e)
            return first()
        if len(ev) >= 2:
            a, b = A(0), A(1)
            if a.tag == "rec" and a.a[0] == "iter":
                s = iter_slice(I, a, b, e)
                if s is not None:
                    return s
            elif t == "std::vector" and strip(T_, I.t(a0["t"]))["k"] == "int" and a.tag == "num" and not has_unk(a):
                return seq(sized(a, b))
        return I.unk("container constructor", e)
    if t == "std::function":
        return first()
    if t in LOCKS:
        if kind == "move":
            return first()
        m = ev[0]
        how = [strip(T_, I.t(x["t"]))["s"] for x in e["a"][1:]]
        if len(ev) > 1 and not (len(how) == 1 and how[0].startswith("std::") and how[0].endswith("_lock_t")):
            return I.unk("lock of several mutexes", e)
        if any("try_to" in h for h in how):
            return I.unk("try lock", e)
        own = TRUE
        if any("defer" in h for h in how):
            own = FALSE
        elif not how:
            I.acquire(m, e)
        return rec("lock", {"m": m, "owned": own})
    if t in RANDOM_DIST:
        if kind in ("copy", "move"):
            return first()
        vs = [A(i) for i in range(len(ev)) if ev[i] is not None]
        return dist_new(t, vs)
    if t == "std::mersenne_twister_engine" or t == "std::linear_congruential_engine":
        return rec("rng", {"seed": A(0), "n": ZERO})
    if t == "std::priority_queue" and strip(T_, I.t(a0["t"])).get("r") == T_[targ(T_, d, 2)].get("r"):
        return pq_new(I, T_, d, first())
    if t == "std::pair" and len(ev) == 2:
        return rec("pair", {"first": A(0), "second": A(1)})
    if t == "std::pair" and len(ev) == 1 and A(0).tag == "rec" and A(0).a[0] == "pair":
        return A(0)
    if t == "std::tuple" and len(ev) == len(d.get("ta", ())) and not (len(ev) == 1 and A(0).tag == "rec" and A(0).a[0] == "tuple"):
        return rec("tuple", {str(i): A(i) for i in range(len(ev))})
    if t == "std::tuple" and len(ev) == 1:
        return A(0)
    if t in ("__gnu_cxx::__normal_iterator", "google::protobuf::internal::RepeatedPtrIterator", "google::protobuf::internal::RepeatedIterator",
             "std::move_iterator"):
        return first()
    if pb_msgs().get(d.get("r")) is not None:
        return first()
    if len(ev) == 1 and "exception" in t or t in ("std::runtime_error", "std::logic_error", "std::invalid_argument"):
        return T("excobj", strc(t), A(0))
    vs = [flatten(val(I, x, e)) for x in ev]
    return lift(lambda *x: T("new:" + t, *x), *vs)
