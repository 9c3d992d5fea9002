"""Abstract values of the value-flow analysis.

Every value is immutable and hash-consed (equal values are the same object), so
value numbering is object identity.  Conditions are decision diagrams over
canonical atoms; a value that depends on conditions is a decision diagram (Dec)
whose leaves are plain values.  Real/integer scalars are kept in a polynomial
normal form (Num) over opaque atoms.
"""
from fractions import Fraction as F
import sys

sys.setrecursionlimit(100000)

_table = {}
BYID = []


class V:
    __slots__ = ("id", "tag", "a", "_meta")

    def __repr__(self):
        return show(self)


def _mk(tag, a):
    k = (tag, a)
    v = _table.get(k)
    if v is None:
        v = V.__new__(V)
        v.tag = tag
        v.a = a
        v.id = len(BYID)
        v._meta = None
        BYID.append(v)
        _table[k] = v
    return v


# V is identity-hashed (default), so tuples of V as keys work by identity.

TRUE = _mk("bool", True)
FALSE = _mk("bool", False)
UNDEF = _mk("undef", ())
VOID = _mk("void", ())
NULL = _mk("null", ())

_unk = [0]


def unk(reason):
    """An unknown value: the analysis does not model what produced it."""
    _unk[0] += 1
    return _mk("unk", (_unk[0], reason))


def T(op, *args):
    """Opaque application."""
    return _mk("t", (op,) + tuple(args))


def sym(name, sort=""):
    return _mk("sym", (name, sort))


def const(x):
    return _mk("const", x)


def strc(x):
    return _mk("str", x)


def ptr(cell, path=()):
    return _mk("ptr", (cell, tuple(path)))


def fnref(key):
    return _mk("fn", key)


def rec(cls, fields):
    """fields: dict name->V"""
    return _mk("rec", (cls, tuple(sorted(fields.items()))))


def rec_get(r, name):
    for k, v in r.a[1]:
        if k == name:
            return v
    return None


def rec_set(r, name, val):
    d = dict(r.a[1])
    d[name] = val
    return rec(r.a[0], d)


def mat(r, c, entries):
    return _mk("mat", (r, c, tuple(entries)))


def seq(parts):
    """parts: ('one', guard, V) | ('all', V sequence-term) | ('map', dom, var, V, guard)"""
    return _mk("seq", tuple(parts))


def vari(alts, idx, vals):
    """std::variant: alts tuple of type strings, idx Num V, vals tuple of V"""
    return _mk("vari", (tuple(alts), idx, tuple(vals)))


def clo(ops, caps, cls):
    return _mk("clo", (tuple(ops), tuple(sorted(caps.items())), cls))


# --------------------------------------------------------------------------
# Num: sum of coeff * prod atom^exp, atoms are V (by id), exps nonzero ints
def _num(d):
    items = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    return _mk("num", items)


def num(c):
    c = F(c)
    return _num({(): c})


ZERO = num(0)
ONE = num(1)
HALF = num(F(1, 2))


def is_num(v):
    return v.tag == "num"


def atom(v):
    """embed an opaque V as a Num"""
    if v.tag == "num":
        return v
    return _num({((v.id, 1),): F(1)})


def nconst(v):
    """constant value or None"""
    if v.tag != "num":
        return None
    if not v.a:
        return F(0)
    if len(v.a) == 1 and v.a[0][0] == ():
        return v.a[0][1]
    return None


def nadd(x, y):
    d = dict(x.a)
    for m, c in y.a:
        s = d.get(m, 0) + c
        if s == 0:
            d.pop(m, None)
        else:
            d[m] = s
    return _num(d)


def nscale(x, k):
    if k == 0:
        return ZERO
    return _num({m: c * k for m, c in x.a})


def nneg(x):
    return nscale(x, F(-1))


def nsub(x, y):
    return nadd(x, nneg(y))


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        s = d.get(a, 0) + e
        if s == 0:
            d.pop(a, None)
        else:
            d[a] = s
    return tuple(sorted(d.items()))


_special = ("sqrt", "sin", "inv")


def _needs(m):
    for a, e in m:
        v = BYID[a]
        if v.tag == "t":
            op = v.a[0]
            if op == "sqrt" and (e >= 2 or e < 0):
                return a, e, v
            if op == "sin" and e >= 2:
                return a, e, v
            if op == "inv" and e < 0:
                return a, e, v
    return None


def _expand(m, c):
    """normalise a monomial with special atoms into a Num"""
    n = _needs(m)
    if n is None:
        return _num({m: c})
    a, e, v = n
    rest = tuple(x for x in m if x[0] != a)
    base = _expand(rest, c)
    op = v.a[0]
    if op == "sqrt":
        p = v.a[1]
        if e >= 2:
            f = npow(p, e // 2)
            if e % 2:
                f = nmul(f, _num({((a, 1),): F(1)}))
        else:
            k = (-e + 1) // 2
            f = npow(ninv(p), k)
            if (-e) % 2:
                f = nmul(f, _num({((a, 1),): F(1)}))
        return nmul(base, f)
    if op == "sin":
        cosv = atom(T("cos", v.a[1]))
        f = npow(nsub(ONE, nmul(cosv, cosv)), e // 2)
        if e % 2:
            f = nmul(f, _num({((a, 1),): F(1)}))
        return nmul(base, f)
    if op == "inv":
        return nmul(base, npow(v.a[1], -e))
    return base


MAXTERMS = 20000


class TooBig(Exception):
    pass


def nmul(x, y):
    if x is ONE:
        return y
    if y is ONE:
        return x
    if not x.a or not y.a:
        return ZERO
    if len(x.a) * len(y.a) > MAXTERMS:
        raise TooBig()
    d = {}
    extra = None
    for m1, c1 in x.a:
        for m2, c2 in y.a:
            m = _mono_mul(m1, m2)
            if _needs(m):
                e = _expand(m, c1 * c2)
                extra = e if extra is None else nadd(extra, e)
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = _num({m: c for m, c in d.items() if c})
    return nadd(r, extra) if extra is not None else r


def npow(x, k):
    if k < 0:
        return npow(ninv(x), -k)
    r = ONE
    for _ in range(k):
        r = nmul(r, x)
    return r


def ninv(x):
    c = nconst(x)
    if c is not None:
        if c == 0:
            return atom(T("div0"))
        return num(1 / c)
    if len(x.a) == 1:
        m, c = x.a[0]
        mm = tuple((a, -e) for a, e in m)
        return _expand(mm, 1 / c)
    lead = x.a[-1][1]
    p = nscale(x, 1 / lead)
    return nscale(atom(T("inv", p)), 1 / lead)


def ndiv(x, y):
    return nmul(x, ninv(y))


def _isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def nsqrt(x):
    c = nconst(x)
    if c is not None and c >= 0:
        p, q = _isqrt(c.numerator), _isqrt(c.denominator)
        if p is not None and q is not None:
            return num(F(p, q))
    return atom(T("sqrt", x))


def nfun(op, x):
    c = nconst(x)
    if c == 0:
        if op in ("sin", "tan", "asin", "atan"):
            return ZERO
        if op in ("cos", "exp"):
            return ONE
    if op in ("sin", "cos") and x.a and x.a[-1][1] < 0:
        r = atom(T(op, nneg(x)))
        return nneg(r) if op == "sin" else r
    return atom(T(op, x))


def atoms_of(x):
    s = set()
    for m, _ in x.a:
        for a, _e in m:
            s.add(a)
    return s


def clear_den(x, y):
    """clear inverse atoms in x - y; returns Num zero iff equal (when no theory beyond field axioms)"""
    d = nsub(x, y)
    for _ in range(8):
        inv = None
        k = 0
        negs = {}
        for m, _c in d.a:
            for a, e in m:
                v = BYID[a]
                if v.tag == "t" and v.a[0] == "inv":
                    if inv is None or a == inv.id:
                        inv = v
                        k = max(k, e)
                if e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if inv is None and not negs:
            return d
        if negs:
            mm = tuple(sorted((a, -e) for a, e in negs.items()))
            d = nmul(d, _num({mm: F(1)}))
            continue
        P = inv.a[1]
        # multiply every term by P^k; a term with inv^e becomes P^(k-e)
        out = ZERO
        for m, c in d.a:
            e = dict(m).get(inv.id, 0)
            rest = tuple(z for z in m if z[0] != inv.id)
            out = nadd(out, nmul(_num({rest: c}), npow(P, k - e)))
        d = out
    return d


# --------------------------------------------------------------------------
# decision diagrams
class Atom:
    __slots__ = ("kind", "a", "order")

    def __repr__(self):
        return show_atom(self)


_atoms = {}
ATOMS = []


def mk_atom(kind, *a):
    k = (kind,) + a
    x = _atoms.get(k)
    if x is None:
        x = Atom()
        x.kind = kind
        x.a = a
        x.order = len(ATOMS)
        ATOMS.append(x)
        _atoms[k] = x
    return x


def dec(order, hi, lo):
    if hi is lo:
        return hi
    return _mk("dec", (order, hi, lo))


def top(v):
    return v.a[0] if v.tag == "dec" else 1 << 60


def cof(v, order, val):
    if v.tag == "dec" and v.a[0] == order:
        return v.a[1] if val else v.a[2]
    return v


def lift(fn, *vals):
    """apply fn to the leaves"""
    memo = {}

    def go(vs):
        r = memo.get(vs)
        if r is not None:
            return r
        o = min(top(v) for v in vs)
        if o == 1 << 60:
            r = fn(*vs)
        else:
            hi = go(tuple(cof(v, o, True) for v in vs))
            lo = go(tuple(cof(v, o, False) for v in vs))
            r = mk_node(o, hi, lo)
        memo[vs] = r
        return r

    return go(tuple(vals)) if vals else fn()


def mk_node(o, hi, lo):
    """node whose children may contain decisions on smaller orders"""
    if hi is lo:
        return hi
    if top(hi) > o and top(lo) > o:
        return dec(o, hi, lo)
    return ite(dec(o, TRUE, FALSE), hi, lo)


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.tag != "dec":
        return unk("bad condition")
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    o = min(top(c), top(a), top(b))
    hi = ite(cof(c, o, True), cof(a, o, True), cof(b, o, True))
    lo = ite(cof(c, o, False), cof(a, o, False), cof(b, o, False))
    r = dec(o, hi, lo)
    _ite_memo[k] = r
    return r


def b_not(a):
    return ite(a, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def b_xor(a, b):
    return ite(a, b_not(b), b)


def b_iff(a, b):
    return ite(a, b, b_not(b))


def b_all(xs):
    r = TRUE
    for x in xs:
        r = b_and(r, x)
    return r


def b_any(xs):
    r = FALSE
    for x in xs:
        r = b_or(r, x)
    return r


def lit(atom_, val=True):
    return dec(atom_.order, TRUE, FALSE) if val else dec(atom_.order, FALSE, TRUE)


_restrict_memo = {}


def restrict(f, care):
    """simplify f using that only care matters (generalised cofactor)"""
    if care is TRUE or f.tag != "dec":
        return f
    if care is FALSE:
        return f
    k = (f, care)
    r = _restrict_memo.get(k)
    if r is not None:
        return r
    fo, co = top(f), top(care)
    if co < fo:
        r = restrict(f, b_or(care.a[1], care.a[2]))
    else:
        c1, c0 = cof(care, fo, True), cof(care, fo, False)
        if c1 is FALSE:
            r = restrict(f.a[2], c0)
        elif c0 is FALSE:
            r = restrict(f.a[1], c1)
        else:
            r = dec_safe(fo, restrict(f.a[1], c1), restrict(f.a[2], c0))
    _restrict_memo[k] = r
    return r


def dec_safe(o, hi, lo):
    return mk_node(o, hi, lo)


# ---- atoms for comparisons ---------------------------------------------------
def _split(x):
    """x (Num) -> (V without constant scaled so that leading coeff is 1, scale, const)"""
    d = dict(x.a)
    c0 = d.pop((), F(0))
    if not d:
        return None, None, c0
    items = sorted(d.items())
    lead = items[-1][1]
    v = _num({m: c / lead for m, c in items})
    return v, lead, c0


def _split_int(x):
    d = dict(x.a)
    c0 = d.pop((), F(0))
    if not d:
        return None, None, c0
    import math
    items = sorted(d.items())
    # primitive integer part, sign of leading positive
    den = 1
    for _, c in items:
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for _, c in items:
        g = math.gcd(g, int(c * den))
    lead = items[-1][1]
    s = F(g, den) * (1 if lead > 0 else -1)
    v = _num({m: c / s for m, c in items})
    return v, s, c0


def _ge_int(v, k):
    """v >= k, v integer-valued primitive form"""
    import math
    k = math.ceil(k)
    if _nonneg_atom(v) and k <= 0:
        return TRUE
    return lit(mk_atom("ge", v, F(k)))


NONNEG = set()  # ids of atoms known to be nonnegative integers


INTEGRAL = set()


def mark_int(v):
    INTEGRAL.add(v)


def is_integral(x):
    """x is an integer for every integer value of its atoms"""
    x = tonum(x)
    for m, c in x.a:
        if c.denominator != 1:
            return False
        for aid, e in m:
            a = BYID[aid]
            if e < 0 or not (a in INTEGRAL or (a.tag == "t" and a.a[0] in ("size", "count", "idiv", "f2i", "floor", "ceil"))):
                return False
    return True


def mark_nonneg(v):
    NONNEG.add(v.id)
    return v


def _nonneg_atom(v):
    return len(v.a) == 1 and v.a[0][1] > 0 and len(v.a[0][0]) == 1 and v.a[0][0][0][1] == 1 and v.a[0][0][0][0] in NONNEG


def _gt0_leaf(x, isint):
    """x > 0"""
    if x.tag == "unk" or not is_num(x):
        return lit(mk_atom("b", T("gt0", x)))
    c = nconst(x)
    if c is not None:
        return TRUE if c > 0 else FALSE
    if isint:
        v, s, c0 = _split_int(x)
        # s*v + c0 > 0
        if s > 0:
            # v > -c0/s  <=> v >= floor(-c0/s)+1
            import math
            return _ge_int(v, math.floor(-c0 / s) + 1)
        # v < c0/(-s)  -> v < t ; t = -c0/s
        t = -c0 / s
        import math
        return b_not(_ge_int(v, math.ceil(t)))
    v, s, c0 = _split(x)
    t = -c0 / s
    if s > 0:
        return _gt_real(v, t)
    # v < t
    return b_not(b_or(_gt_real(v, t), _eq_real(v, t)))


def _known_nonneg_real(v):
    """sum of squares / sqrt / norms: syntactically >= 0"""
    for m, c in v.a:
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            w = BYID[a]
            if a in NONNEG:
                continue
            if w.tag == "t" and w.a[0] in ("sqrt", "abs"):
                continue
            return False
    return True


def _gt_real(v, t):
    if t < 0 and _known_nonneg_real(v):
        return TRUE
    p = mk_atom("gt", v, t)
    mk_atom("eqr", v, t)
    return lit(p)


def _eq_real(v, t):
    if t < 0 and _known_nonneg_real(v):
        return FALSE
    p = mk_atom("gt", v, t)
    z = mk_atom("eqr", v, t)
    # canonical: gt excludes eq
    return dec(p.order, FALSE, lit(z)) if z.order > p.order else b_and(lit(z), b_not(lit(p)))


def c_gt(a, b, isint=False):
    return lift(lambda x, y: _gt0_leaf(nsub(x, y), isint) if is_num(x) and is_num(y) else _opaque_cmp("gt", x, y), a, b)


def _opaque_cmp(op, x, y):
    if has_unk(x) or has_unk(y):
        return lit(mk_atom("b", T("unk?" + op, x, y)))
    if op == "gt":
        # order comparisons on opaque values: canonical lt(x,y)
        return lit(mk_atom("b", T("lt", y, x)))
    return lit(mk_atom("b", T(op, x, y)))


def c_lt(a, b, isint=False):
    return c_gt(b, a, isint)


def c_ge(a, b, isint=False):
    return b_not(c_gt(b, a, isint))


def c_le(a, b, isint=False):
    return b_not(c_gt(a, b, isint))


def _eq_leaf(x, y, isint):
    if x is y:
        return TRUE
    if is_num(x) and is_num(y):
        d = nsub(x, y)
        c = nconst(d)
        if c is not None:
            return TRUE if c == 0 else FALSE
        if isint:
            v, s, c0 = _split_int(d)
            t = -c0 / s
            if t.denominator != 1:
                return FALSE
            return b_and(_ge_int(v, t), b_not(_ge_int(v, t + 1)))
        v, s, c0 = _split(d)
        return _eq_real(v, -c0 / s)
    if x.tag == "bool" or y.tag == "bool":
        if x.tag == "bool" and y.tag == "bool":
            return TRUE if x is y else FALSE
    if x.tag in ("const", "str", "null", "ptr", "fn") and y.tag in ("const", "str", "null", "ptr", "fn"):
        if x.tag == "ptr" and y.tag == "ptr":
            if x.a[0] != y.a[0]:
                return FALSE
            return lit(mk_atom("b", T("ptreq", x, y))) if x is not y else TRUE
        return FALSE
    if x.id > y.id:
        x, y = y, x
    return lit(mk_atom("eq", x, y))


def c_eq(a, b, isint=False):
    if a is b:
        return TRUE
    if a.tag == "rec" and b.tag == "rec" and a.a[0] == b.a[0]:
        return b_all(c_eq(dict(a.a[1])[k], dict(b.a[1])[k], isint) for k, _ in a.a[1])
    if a.tag == "mat" and b.tag == "mat" and a.a[:2] == b.a[:2]:
        return b_all(c_eq(x, y) for x, y in zip(a.a[2], b.a[2]))
    return lift(lambda x, y: _eq_leaf(x, y, isint), a, b)


def bvar(v):
    """opaque boolean value as condition"""
    def leaf(x):
        if x.tag == "bool":
            return x
        return lit(mk_atom("b", x))
    return lift(leaf, v)


# --------------------------------------------------------------------------
_unk_memo = {}


def children(v):
    t = v.tag
    if t in ("t",):
        return [x for x in v.a[1:] if isinstance(x, V)]
    if t == "num":
        return [BYID[i] for i in atoms_of(v)]
    if t == "rec":
        return [x for _, x in v.a[1]]
    if t == "mat":
        return list(v.a[2])
    if t == "seq":
        out = []
        for p in v.a:
            out += [x for x in p if isinstance(x, V)]
        return out
    if t == "vari":
        return [v.a[1]] + [x for x in v.a[2]]
    if t == "clo":
        return [x for _, x in v.a[1] if isinstance(x, V)]
    if t == "dec":
        at = ATOMS[v.a[0]]
        return [v.a[1], v.a[2]] + [x for x in at.a if isinstance(x, V)]
    return []


def has_unk(v):
    r = _unk_memo.get(v)
    if r is not None:
        return r
    if v.tag == "unk" or v is UNDEF:
        r = True
    else:
        r = any(has_unk(x) for x in children(v))
    _unk_memo[v] = r
    return r


def find_unks(v, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if v in seen:
        return out
    seen.add(v)
    if v.tag == "unk":
        out.append(v.a[1])
    elif v is UNDEF:
        out.append("uninitialised")
    for x in children(v):
        find_unks(x, out, seen)
    return out


def syms_of(v, out=None, seen=None):
    if out is None:
        out, seen = set(), set()
    if v in seen:
        return out
    seen.add(v)
    if v.tag == "sym":
        out.add(v)
    for x in children(v):
        syms_of(x, out, seen)
    return out


# ---- substitution -------------------------------------------------------------
def subst(v, m, memo=None):
    """replace V's (symbols/atoms) by V's; m: dict V->V"""
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is not None:
        return r
    if v in m:
        r = m[v]
    else:
        t = v.tag
        if t == "t":
            args = [subst(x, m, memo) if isinstance(x, V) else x for x in v.a[1:]]
            if all(x is y for x, y in zip(args, v.a[1:])):
                r = v
            else:
                r = rebuild_t(v.a[0], args)
        elif t == "num":
            if not any(subst(BYID[i], m, memo) is not BYID[i] for i in atoms_of(v)):
                r = v
            else:
                r = ZERO
                for mono, c in v.a:
                    term = num(c)
                    for a, e in mono:
                        s = subst(BYID[a], m, memo)
                        s = lift(lambda z: z if is_num(z) else atom(z), s)
                        p = s if e > 0 else lift(ninv, s)
                        for _ in range(abs(e)):
                            term = lift(nmul, term, p)
                    r = lift(nadd, r, term)
        elif t == "rec":
            r = rec(v.a[0], {k: subst(x, m, memo) for k, x in v.a[1]})
        elif t == "mat":
            r = mat(v.a[0], v.a[1], [subst(x, m, memo) for x in v.a[2]])
        elif t == "seq":
            ps = [tuple(subst(x, m, memo) if isinstance(x, V) else x for x in p) for p in v.a]
            r = seq([p for p in ps if not (p[0] == "map" and p[1] is ZERO)])
        elif t == "vari":
            r = vari(v.a[0], subst(v.a[1], m, memo), [subst(x, m, memo) for x in v.a[2]])
        elif t == "clo":
            r = clo(v.a[0], {k: (subst(x, m, memo) if isinstance(x, V) else x) for k, x in v.a[1]}, v.a[2])
        elif t == "dec":
            c = subst_atom(ATOMS[v.a[0]], m, memo)
            r = merge(c, subst(v.a[1], m, memo), subst(v.a[2], m, memo))
        elif t == "ptr":
            r = v
            for i, st in enumerate(v.a[1]):
                if any(isinstance(x, V) for x in st):
                    new = tuple(subst(x, m, memo) if isinstance(x, V) else x for x in st)
                    if new != st:
                        r = _subst_ptr(r, i, new)
        else:
            r = v
    memo[v] = r
    return r


def _subst_ptr(p, i, st):
    """p with step i replaced; an index that depends on conditions becomes a decision between pointers"""
    def leaf(q):
        def with_(*xs):
            it = iter(xs)
            return ptr(q.a[0], q.a[1][:i] + (tuple(next(it) if isinstance(x, V) else x for x in st),) + q.a[1][i + 1:])
        return lift(with_, *[x for x in st if isinstance(x, V)])
    return lift(leaf, p)


def rebuild_t(op, args):
    from . import values as _s
    hook = T_REBUILD.get(op)
    if hook:
        return hook(*args)
    if any(isinstance(a, V) and a.tag == "dec" for a in args):
        vs = [a for a in args if isinstance(a, V)]

        def f(*leaves):
            it = iter(leaves)
            return T(op, *[next(it) if isinstance(a, V) else a for a in args])
        return lift(f, *vs)
    return T(op, *args)


T_REBUILD = {}


def _rb_inv(p):
    r = lift(lambda x: ninv(x), p)
    return r


T_REBUILD["inv"] = _rb_inv
T_REBUILD["sqrt"] = lambda p: lift(nsqrt, p)
T_REBUILD["sin"] = lambda p: lift(lambda x: nfun("sin", x), p)
T_REBUILD["cos"] = lambda p: lift(lambda x: nfun("cos", x), p)


def subst_atom(at, m, memo):
    args = [subst(x, m, memo) if isinstance(x, V) else x for x in at.a]
    if all(x is y for x, y in zip(args, at.a)):
        return lit(at)
    if at.kind == "gt":
        return c_gt(args[0], num(args[1]))
    if at.kind == "eqr":
        return c_eq(args[0], num(args[1]))
    if at.kind == "ge":
        return c_ge(args[0], num(args[1]), True)
    if at.kind == "eq":
        return c_eq(args[0], args[1])
    return bvar(args[0])


# ---- merge of structured values -------------------------------------------------
_merge_memo = {}


def merge(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    k = (c, a, b)
    r = _merge_memo.get(k)
    if r is not None:
        return r
    r = None
    if a.tag == b.tag:
        if a.tag == "rec" and a.a[0] == b.a[0] and [k_ for k_, _ in a.a[1]] == [k_ for k_, _ in b.a[1]]:
            bd = dict(b.a[1])
            r = rec(a.a[0], {n: merge(c, x, bd[n]) for n, x in a.a[1]})
        elif a.tag == "mat" and a.a[:2] == b.a[:2]:
            r = mat(a.a[0], a.a[1], [merge(c, x, y) for x, y in zip(a.a[2], b.a[2])])
        elif a.tag == "vari" and a.a[0] == b.a[0]:
            r = vari(a.a[0], merge(c, a.a[1], b.a[1]),
                     [y if x is UNDEF else x if y is UNDEF else merge(c, x, y) for x, y in zip(a.a[2], b.a[2])])
        elif a.tag == "seq":
            r = merge_seq(c, a, b)
    if r is None:
        r = ite(c, a, b)
    _merge_memo[k] = r
    return r


def merge_seq(c, a, b):
    pa, pb = list(a.a), list(b.a)
    n = 0
    while n < len(pa) and n < len(pb) and pa[n] == pb[n]:
        n += 1
    ra, rb = pa[n:], pb[n:]
    if all(p[0] == "one" for p in ra + rb):
        if len(ra) == len(rb):
            return seq(pa[:n] + [("one", ite(c, x[1], y[1]), merge(c, x[2], y[2])) for x, y in zip(ra, rb)])
        if not rb:
            return seq(pa[:n] + [("one", b_and(c, x[1]), x[2]) for x in ra])
        if not ra:
            return seq(pa[:n] + [("one", b_and(b_not(c), x[1]), x[2]) for x in rb])
    return None



# ---- lifted arithmetic ------------------------------------------------------------
def tonum(v):
    if v.tag == "num":
        return v
    if v is TRUE:
        return ONE
    if v is FALSE:
        return ZERO
    if v is UNDEF:
        return atom(unk("uninitialised"))
    return atom(v)


def _guard(fn):
    def g(*a):
        try:
            return lift(lambda *xs: fn(*[tonum(x) for x in xs]), *a)
        except TooBig:
            return atom(unk("expression too large"))
    return g


add = _guard(nadd)
sub = _guard(nsub)
mul = _guard(nmul)
div = _guard(ndiv)
neg = _guard(nneg)
sqrt = _guard(nsqrt)
inv = _guard(ninv)


def fun(op, x):
    return _guard(lambda y: nfun(op, y))(x)


def app(op, *args):
    """uninterpreted application, lifted over decisions in the arguments, as a Num"""
    vs = [a for a in args if isinstance(a, V)]

    def f(*ls):
        it = iter(ls)
        return atom(T(op, *[next(it) if isinstance(a, V) else a for a in args]))
    return lift(f, *vs)


def appt(op, *args):
    """like app, but a plain (non numeric) term"""
    vs = [a for a in args if isinstance(a, V)]

    def f(*ls):
        it = iter(ls)
        return T(op, *[next(it) if isinstance(a, V) else a for a in args])
    return lift(f, *vs)


def appb(op, *args):
    """opaque boolean"""
    return bvar(appt(op, *args))


def nsum(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


# ---- printing --------------------------------------------------------------------
def show(v, depth=0):
    if depth > 12:
        return "..."
    t = v.tag
    if t == "seq" and len(v.a) == 16 and all(p[0] == "one" and p[2] is ZERO for p in v.a):
        return "<null id>"
    s = lambda x: show(x, depth + 1) if isinstance(x, V) else str(x)
    if t == "num":
        if not v.a:
            return "0"
        out = []
        for m, c in v.a:
            fs = [s(BYID[a]) + ("^%d" % e if e != 1 else "") for a, e in m]
            cs = str(c)
            if fs and c == 1:
                cs = ""
            elif fs and c == -1:
                cs = "-"
            elif fs:
                cs += "*"
            out.append(cs + "*".join(fs))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if t == "t":
        return "%s(%s)" % (v.a[0], ", ".join(s(x) for x in v.a[1:]))
    if t == "sym":
        return v.a[0]
    if t == "bool":
        return str(v.a).lower()
    if t == "rec":
        return "%s{%s}" % (v.a[0].split("::")[-1] if "<" not in v.a[0] else v.a[0].split("<")[0].split("::")[-1], ", ".join("%s=%s" % (k, s(x)) for k, x in v.a[1]))
    if t == "mat":
        return "[%dx%d: %s]" % (v.a[0], v.a[1], ", ".join(s(x) for x in v.a[2]))
    if t == "seq":
        return "<" + ", ".join(":".join(s(x) for x in p) for p in v.a) + ">"
    if t == "dec":
        return "(%s ? %s : %s)" % (show_atom(ATOMS[v.a[0]]), s(v.a[1]), s(v.a[2]))
    if t == "vari":
        return "variant#%s%s" % (s(v.a[1]), [s(x) for x in v.a[2]])
    if t == "ptr":
        return "&%s%s" % (v.a[0], "".join("." + str(p[1] if len(p) > 1 else p) for p in v.a[1]))
    if t == "unk":
        return "UNKNOWN#%d(%s)" % v.a
    if t == "clo":
        return "lambda"
    return "%s:%s" % (t, v.a)


def show_atom(a):
    if a.kind == "gt":
        return "%s > %s" % (show(a.a[0]), a.a[1])
    if a.kind == "eqr":
        return "%s == %s" % (show(a.a[0]), a.a[1])
    if a.kind == "ge":
        return "%s >= %s" % (show(a.a[0]), a.a[1])
    if a.kind == "eq":
        return "%s == %s" % (show(a.a[0]), show(a.a[1]))
    return show(a.a[0])


HALVES = (lambda v: False, lambda v: v)   # set by the vector model
