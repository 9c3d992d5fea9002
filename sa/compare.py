"""Comparison of two abstract values (what the source computes / what the property
demands) under a care condition.

Both values are normal forms.  Identical normal forms are equal.  Where they differ,
every region (cube of canonical conditions) of the difference is classified:
  equal      the normal forms evaluate alike in the region (an algebraic identity the
             normal form does not capture), or the region is contradictory
  unknown    the difference depends on a value the analysis does not model
  definite   there is a consistent assignment of the region's atoms under which the two
             normal forms evaluate differently
Only 'definite' is ever reported.  (Random interpretation of the analysis' own normal
forms in the sense of Gulwani/Necula: it can only withdraw alarms.)
"""
import decimal
import random
from decimal import Decimal as D
from fractions import Fraction as F
from .values import *
from . import values as VV


class Touch(Exception):
    """evaluation reached something the analysis does not know"""


ROT = {}              # atom id -> (key, row, col): entries of a matrix that is a rotation


def rotation_entries(m):
    """register a symbolic matrix as a rotation: evaluation only uses orthonormal values for it"""
    if m.tag != "mat":
        return
    key = m.id
    R, C, en = m.a
    for r in range(R):
        for c in range(C):
            x = en[r * C + c]
            if x.tag == "num" and len(x.a) == 1 and len(x.a[0][0]) == 1 and x.a[0][1] == 1 and x.a[0][0][0][1] == 1:
                ROT[x.a[0][0][0][0]] = (key, r, c)


def quat_to_mat(w, x, y, z):
    n = w * w + x * x + y * y + z * z
    s = 2 / n
    return [[1 - s * (y * y + z * z), s * (x * y - w * z), s * (x * z + w * y)],
            [s * (x * y + w * z), 1 - s * (x * x + z * z), s * (y * z - w * x)],
            [s * (x * z - w * y), s * (y * z + w * x), 1 - s * (x * x + y * y)]]


def mat_to_aa(m):
    """angle in (0, pi) and unit axis of a rotation matrix given as 9 numbers"""
    v = (m[7] - m[5], m[2] - m[6], m[3] - m[1])
    n = (v[0] ** 2 + v[1] ** 2 + v[2] ** 2).sqrt()
    if n < D("1e-12"):
        raise Touch("degenerate rotation")
    return _atan2(n, m[0] + m[4] + m[8] - 1), [a / n for a in v]


def _h(*a):
    return hash(a) & 0xFFFFFFFFFFFF


decimal.getcontext().prec = 55
decimal.getcontext().Emax = 100000
decimal.getcontext().Emin = -100000
PI = D("3.14159265358979323846264338327950288419716939937510582097494459")
EPS = D(10) ** -50


def dec_of(q):
    return D(q.numerator) / D(q.denominator)


def _sin(x):
    x = x % (2 * PI)
    n, t, s = 1, x, x
    x2 = x * x
    while abs(t) > EPS:
        t = -t * x2 / ((n + 1) * (n + 2))
        n += 2
        s += t
    return s


def _cos(x):
    x = x % (2 * PI)
    n, t, s = 0, D(1), D(1)
    x2 = x * x
    while abs(t) > EPS:
        t = -t * x2 / ((n + 1) * (n + 2))
        n += 2
        s += t
    return s


def _atan(x):
    k = 0
    while abs(x) > D("0.1"):
        x = x / (1 + (1 + x * x).sqrt())
        k += 1
    n, t, s = 1, x, x
    x2 = x * x
    while abs(t) > EPS:
        t = -t * x2
        n += 2
        s += t / n
    return s * 2 ** k


def _asin(x):
    if abs(x) > 1:
        raise ValueError
    if abs(x) == 1:
        return PI / 2 * x
    return _atan(x / (1 - x * x).sqrt())


def _acos(x):
    return PI / 2 - _asin(x)


def _atan2(y, x):
    if x > 0:
        return _atan(y / x)
    if x < 0:
        return _atan(y / x) + (PI if y >= 0 else -PI)
    if y == 0:
        return D(0)
    return PI / 2 if y > 0 else -PI / 2


def _tan(x):
    return _sin(x) / _cos(x)


def _floor(x):
    return x.to_integral_value(rounding=decimal.ROUND_FLOOR)


def _ceil(x):
    return x.to_integral_value(rounding=decimal.ROUND_CEILING)


def _trunc(x):
    return x.to_integral_value(rounding=decimal.ROUND_DOWN)


def _sqrt(x):
    if x < 0:
        raise ValueError
    return x.sqrt()


def _key(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, D):
        if x == 0:
            return "0"
        return "%.25e" % x
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    return x


class Val:
    """a valuation: consistent assignment of atoms, opaque terms hashed by congruence"""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.salt = self.rng.getrandbits(40)
        self.ov = {}          # V id -> value (syms / opaque terms)
        self.fb = {}          # opaque boolean V id -> bool
        self.rep = {}         # union-find on opaque V ids
        self.ints = set()
        self.memo = {}
        self.rotscale = D(self.rng.choice(("1", "1", "1", "3e-3", "8e-4", "2e-4", "1e-6")))
        self.scale = D(self.rng.choice(("1", "1", "1", "0.1", "10")))
        self.iscale = 9
        self.expand = False   # sequences element by element
        self.special = False  # few distinct values

    def find(self, i):
        while i in self.rep:
            i = self.rep[i]
        return i

    def union(self, x, y):
        a, b = self.find(x.id), self.find(y.id)
        if a != b:
            # keep constants as representatives
            if BYID[a].tag in ("str", "const", "null", "seq", "mat", "ptr", "fn"):
                self.rep[b] = a
            else:
                self.rep[a] = b
        self.memo.clear()

    def set(self, v, x):
        self.ov[self.find(v.id)] = x
        self.memo.clear()

    def fresh(self, key, v):
        r = random.Random(_h(self.salt, key))
        if v.id in self.ints or v in VV.INTEGRAL:
            n = r.randint(0, self.iscale)
            if v.id not in VV.NONNEG and r.random() < 0.3:
                n = -n
            return D(n)
        if self.special and r.random() < 0.85:
            x = D(r.choice(("0", "0", "1", "1", "-1", "2")))
            return abs(x) if v.id in VV.NONNEG else x
        x = D(r.randint(-2 * 10 ** 12, 2 * 10 ** 12)) / 10 ** 12 * self.scale
        if v.id in VV.NONNEG:
            x = abs(x)
        if r.random() < 0.02:
            x = D(round(x))
        return x

    # ---- numbers
    def n(self, v):
        x = self.e(v)
        return self.tonum(x, v)

    def tonum(self, x, v):
        if isinstance(x, bool):
            return D(1) if x else D(0)
        if isinstance(x, D):
            return x
        return self.fresh(("num", _key(x)), v)

    def e(self, v):
        i = self.find(v.id)
        r = self.memo.get(i)
        if r is None:
            try:
                r = self._e(BYID[i])
            except ArithmeticError:
                raise Touch("undefined arithmetic")
            self.memo[i] = r
        return r

    def atomv(self, v):
        """numeric value of an atom of a Num"""
        return self.n(v)

    def _e(self, v):
        if v.id in self.ov:
            return self.ov[v.id]
        t = v.tag
        if t == "num":
            s = D(0)
            for m, c in v.a:
                p = dec_of(c)
                for a, e in m:
                    x = self.atomv(BYID[a])
                    try:
                        p = p * x ** e
                    except (ArithmeticError, ValueError):
                        raise Touch("division by zero")
                s = s + p
            return s
        if t == "unk" or v is UNDEF:
            raise Touch(v.a[1] if t == "unk" else "uninitialised")
        if t == "bool":
            return v.a
        if t == "sym":
            return self.fresh(("sym", v.a), v)
        if t in ("const", "str", "null", "ptr", "fn", "void"):
            return (t, v.a if isinstance(v.a, (str, int, tuple)) else repr(v.a))
        if t == "dec":
            return self.e(v.a[1] if self.atom(ATOMS[v.a[0]]) else v.a[2])
        if t == "rec":
            return ("rec", v.a[0]) + tuple((k, self.e(x)) for k, x in v.a[1] if x is not UNDEF)
        if t == "mat":
            return ("mat", v.a[0], v.a[1]) + tuple(self.n(x) if x is not UNDEF else "undef" for x in v.a[2])
        if t == "vari":
            i = self.n(v.a[1])
            if i != int(i) or not 0 <= int(i) < len(v.a[2]):
                raise Touch("variant index")
            return ("vari", int(i), self.e(v.a[2][int(i)]))
        if t == "seq":
            out = []
            for p in v.a:
                if p[0] == "one":
                    if self.e(p[1]) is True:
                        out.append(("one", self.e(p[2])))
                elif p[0] == "all":
                    x = self.e(p[1])
                    if isinstance(x, tuple) and x and x[0] == "seq":
                        out += list(x[1:])
                    elif self.expand:
                        out += self.elements(p[1])
                    else:
                        out.append(("all", x))
                else:
                    _, n, b, x, g = p
                    for i in range(self.times(n)):
                        m = {b: num(i)}
                        if self.e(VV.subst(g, m)) is True:
                            out.append(("one", self.e(VV.subst(x, m))))
            return ("seq",) + tuple(out)
        if t == "clo":
            return ("clo", v.a[0]) + tuple((k, self.e(x) if isinstance(x, V) else x) for k, x in v.a[1])
        if t == "t":
            if self.expand and v.a[0] not in BINDERS:
                w = self.canon(v)
                if w is not v:
                    return self.e(w)
            return self.term(v)
        raise Touch("tag " + t)

    def canon(self, v):
        """the term with the indices in it evaluated, so that an element is the same however its index is given"""
        if v.tag != "t" or not v.a[1:]:
            return v
        op = v.a[0]
        if op == "at":
            s, i = v.a[1], v.a[2]
            s2 = self.canon(s)
            if i.tag == "num" and nconst(i) is None:
                k = self.n(i)
                if k == int(k):
                    i = num(int(k))
            if s2 is s and i is v.a[2]:
                return v
            return VV.rebuild_t("at", [s2, i])
        if op in ("fld", "el", "optv", "has", "alt", "size", "pointee", "isnull", "vindex") and isinstance(v.a[1], V):
            x = self.canon(v.a[1])
            if x is not v.a[1]:
                return VV.rebuild_t(op, [x] + list(v.a[2:]))
        return v

    def term(self, v):
        op = v.a[0]
        a = v.a[1:]
        if op in NUMOPS:
            try:
                return +NUMOPS[op](*[self.n(x) for x in a])
            except (ValueError, ArithmeticError):
                raise Touch("domain of " + op)
        if op in ("idiv", "imod"):
            x, y = self.n(a[0]), self.n(a[1])
            if y == 0:
                raise Touch("division by zero")
            q = _trunc(x / y)
            return q if op == "idiv" else x - q * y
        if op == "f2i":
            return _trunc(self.n(a[0]))
        if op == "wrap":
            x = self.n(a[0])
            if x != int(x):
                raise Touch("wrapping of a fraction")
            x = int(x) % (1 << int(a[1]))
            return D(x - (1 << int(a[1])) if a[2] and x >> (int(a[1]) - 1) else x)
        if op == "div0":
            raise Touch("division by zero")
        if op in BINDERS:
            return self.binder(op, a)
        if op == "info":
            return self.fresh(("info",) + tuple(x if not isinstance(x, V) else _key(self.e(x)) for x in a), v)
        if v.id in ROT:
            key, r, c = ROT[v.id]
            g = random.Random(_h(self.salt, "rot", key))
            q = [D(g.randint(-10 ** 9, 10 ** 9)) / 10 ** 9 for _ in range(4)]
            k = self.rotscale
            return quat_to_mat(q[0] if k == 1 else D(1), k * q[1], k * q[2], k * q[3])[r][c]
        if op in ("aa_angle", "aa_axis") and a[0].tag == "mat":
            ang, ax = mat_to_aa([self.n(x) for x in a[0].a[2]])
            return ang if op == "aa_angle" else ax[int(a[1])]
        if op == "fld" and a[0].tag == "t" and a[0].a[0] == "quatof" and a[0].a[1].tag == "mat" and a[1] in ("w", "x", "y", "z"):
            ang, ax = mat_to_aa([self.n(x) for x in a[0].a[1].a[2]])
            return _cos(ang / 2) if a[1] == "w" else _sin(ang / 2) * ax["xyz".index(a[1])]
        args = tuple(_key(self.e(x)) if isinstance(x, V) else x for x in a)
        if op in ("size", "norm", "arclen"):
            r = self.fresh((op,) + args, v)
            return abs(r) if op in ("norm", "arclen") else D(abs(int(r)))
        if v.id in self.fb:
            return self.fb[v.id]
        # opaque application: an uninterpreted value determined by its arguments
        return ("t", op, _h(self.salt, op, args) if op not in STRUCT else (op,) + args)

    def elements(self, x):
        from .interp import seq_at, seq_size
        return [("one", self.e(seq_at(x, num(i)))) for i in range(self.times(seq_size(x)))]

    def times(self, n):
        k = self.n(n)
        if k != int(k) or k > MAX_ITER:
            raise Touch("many iterations")
        return max(0, int(k))

    def binder(self, op, a):
        """bounded sums, quantifiers and loops, iterated"""
        if op == "sum":
            n, b, body = a
            r = D(0)
            for i in range(self.times(n)):
                r = r + self.n(VV.subst(body, {b: num(i)}))
            return r
        if op == "count":
            n, b, c = a
            return D(len([i for i in range(self.times(n)) if self.truth(VV.subst(c, {b: num(i)}))]))
        if op == "exists":
            n, b, c = a
            for i in range(self.times(n)):
                if self.truth(VV.subst(c, {b: num(i)})):
                    return True
            return False
        if op == "first":
            n, b, c = a
            k = self.times(n)
            for i in range(k):
                if self.truth(VV.subst(c, {b: num(i)})):
                    return D(i)
            return D(k)
        if op == "while":
            b, c = a
            for i in range(MAX_ITER):
                if not self.truth(VV.subst(c, {b: num(i)})):
                    return D(i)
            raise Touch("many iterations")
        which, n, b = a[:3]
        m = (len(a) - 3) // 2
        st, bodies = list(a[3:3 + m]), a[3 + m:]
        for i in range(self.times(n)):
            sub = {b: num(i)}
            for j, x in enumerate(st):
                sub[sym("#g%d%s" % (j, b.a[0]))] = x
            st = [VV.subst(x, sub) for x in bodies]
        return self.e(st[which])

    def truth(self, c):
        r = self.e(c)
        if not isinstance(r, bool):
            raise Touch("not a truth value")
        return r

    # ---- conditions
    def atom(self, a):
        k = a.kind
        if k == "gt":
            x, t = self.n(a.a[0]), dec_of(a.a[1])
            return x > t and not near(x, t)
        if k == "eqr":
            return near(self.n(a.a[0]), dec_of(a.a[1]))
        if k == "ge":
            return self.n(a.a[0]) >= dec_of(a.a[1])
        if k == "eq":
            return _key(self.e(a.a[0])) == _key(self.e(a.a[1]))
        v = a.a[0]
        if v.tag == "t" and v.a[0] in BINDERS:
            return self.truth(v)
        if v.id in self.fb:
            return self.fb[v.id]
        if v.tag == "unk":
            raise Touch(v.a[1])
        if v.tag == "t" and isinstance(v.a[0], str) and v.a[0].startswith("unk?"):
            raise Touch("unknown comparison")
        x = self.e(v)
        if isinstance(x, bool):
            return x
        return bool(_h(self.salt, "b", _key(x)) & 64)


def near(x, t):
    return abs(x - t) <= D("1e-40") * (1 + abs(t))


STRUCT = set()
BINDERS = ("sum", "exists", "first", "while", "iter", "count")
MAX_ITER = 40
NUMOPS = {
    "sqrt": _sqrt, "sin": _sin, "cos": _cos, "tan": _tan,
    "asin": _asin, "acos": _acos, "atan": _atan, "atan2": _atan2,
    "abs": abs, "exp": lambda x: x.exp(), "log": lambda x: x.ln(), "floor": _floor, "ceil": _ceil,
    "inv": lambda x: 1 / x,
    "maxCoeff": lambda *x: max(x), "minCoeff": lambda *x: min(x),
    "pow": lambda x, y: x ** y,
    "round": lambda x: _floor(abs(x) + D("0.5")) * (1 if x >= 0 else -1),
}


# ------------------------------------------------------------------ satisfying a region
def _int_syms(cube):
    out = set()

    def walk(v, depth=0):
        if v.id in out or depth > 6:
            return
        if v.tag == "num":
            for i in atoms_of(v):
                out.add(i)
                w = BYID[i]
                if w.tag == "t" and w.a[0] in ("idiv", "imod", "wrap"):
                    for x in w.a[1:]:
                        if isinstance(x, V):
                            walk(x, depth + 1)
        else:
            out.add(v.id)
    for a, _ in cube:
        if a.kind == "ge":
            walk(a.a[0])
    return out


def _settable(v):
    return v.tag in ("sym",) or (v.tag == "t" and v.a[0] not in NUMOPS and v.a[0] not in ("idiv", "imod", "f2i", "div0", "inv"))


def set_num(val, v, target, depth=0):
    """adjust the valuation so that the numeric value v becomes target; False if stuck"""
    if depth > 6:
        return False
    if v.tag == "dec":
        try:
            b = val.atom(ATOMS[v.a[0]])
        except Touch:
            return False
        return set_num(val, v.a[1] if b else v.a[2], target, depth + 1)
    if v.tag != "num":
        return set_atom(val, v, target, depth)
    if target == 0 and v.a and VV._known_nonneg_real(v):
        ok = True
        for i in atoms_of(v):
            ok = set_atom(val, BYID[i], D(0), depth) and ok
        return ok
    degs = set(sum(e for _, e in m) for m, _ in v.a)
    if len(v.a) > 1 and degs == {2} and target > 0 and val.rng.random() < 0.8:
        try:
            c = val.n(v)
            k = (target / c).sqrt() if c > 0 else None
        except (Touch, ArithmeticError):
            k = None
        if k is not None:
            vals = [(i, val.n(BYID[i])) for i in atoms_of(v)]
            if all(i not in val.ints for i, _ in vals) and all(set_atom(val, BYID[i], x * k, depth) for i, x in vals):
                return True
    cands = []
    lin = {}
    for m, c in v.a:
        for a, e in m:
            lin.setdefault(a, []).append((m, c, e))
    keys = list(lin)
    val.rng.shuffle(keys)
    for a in keys:
        es = set(e for _, _, e in lin[a])
        if es not in ({1}, {2}, {-1}):
            continue
        e = es.pop()
        try:
            coef = D(0)
            rest = D(0)
            for m, c in v.a:
                p = dec_of(c)
                has = False
                for b, k in m:
                    if b == a:
                        has = True
                        continue
                    p = p * val.n(BYID[b]) ** k
                if has:
                    coef = coef + p
                else:
                    rest = rest + p
            if coef == 0:
                continue
            x = (target - rest) / coef
            if e == 2:
                if x < 0:
                    continue
                x = x.sqrt() * val.rng.choice((1, -1))
            elif e == -1:
                if x == 0:
                    continue
                x = 1 / x
        except (Touch, ArithmeticError, ValueError):
            continue
        if a in val.ints or BYID[a] in VV.INTEGRAL:
            x = D(round(x))
        if a in VV.NONNEG and x < 0:
            continue
        cands.append((a, x))
    for a, x in cands:
        if set_atom(val, BYID[a], x, depth):
            return True
    return False


def set_atom(val, v, x, depth):
    if v.id in ROT:
        return False
    if v in VV.INTEGRAL:
        x = D(round(x))
    if v.tag == "t":
        op = v.a[0]
        try:
            if op == "sqrt":
                return x >= 0 and set_num(val, v.a[1], x * x, depth + 1)
            if op == "abs":
                return x >= 0 and set_num(val, v.a[1], x, depth + 1)
            if op == "inv":
                return x != 0 and set_num(val, v.a[1], 1 / x, depth + 1)
            if op == "acos":
                return 0 <= x <= PI and set_num(val, v.a[1], _cos(x), depth + 1)
            if op == "cos":
                return -1 <= x <= 1 and set_num(val, v.a[1], _acos(x), depth + 1)
            if op == "sin":
                return -1 <= x <= 1 and set_num(val, v.a[1], _asin(x), depth + 1)
            if op in ("atan",):
                return abs(x) < D("1.5") and set_num(val, v.a[1], _tan(x), depth + 1)
            if op in ("f2i", "floor", "ceil"):
                return set_num(val, v.a[1], x + (D("0.25") if op != "ceil" else D("-0.25")) * (1 if x >= 0 or op != "f2i" else -1), depth + 1)
            if op == "idiv":
                y = val.n(v.a[2])
                return set_num(val, v.a[1], D(round(x)) * y, depth + 1)
            if op == "imod":
                y = val.n(v.a[2])
                q = val.n(T("idiv", v.a[1], v.a[2]))
                return abs(x) < abs(y) and set_num(val, v.a[1], q * y + D(round(x)), depth + 1)
            if op == "exp":
                return x > 0 and set_num(val, v.a[1], x.ln(), depth + 1)
            if op in ("first", "while"):
                t = int(x)
                if x != t or t < 0 or t > MAX_ITER:
                    return False
                b, c = v.a[-2:]
                if op == "first":
                    n = val.n(v.a[1])
                    if n < t and not set_num(val, v.a[1], D(t + val.rng.choice((0, 1, 1, 2))), depth + 1):
                        return False
                    if val.n(v.a[1]) == t and val.rng.random() < 0.5 and val.n(v.a[1]) != n:
                        t += 1
                for i in range(t):
                    if not fix_bool(val, VV.subst(c, {b: num(i)}), op == "while", depth + 1):
                        return False
                if op == "while" or val.n(v.a[1]) > t:
                    return fix_bool(val, VV.subst(c, {b: num(t)}), op != "while", depth + 1)
                return True
        except (Touch, ValueError, ArithmeticError):
            return False
        if op in NUMOPS or op == "div0" or op in BINDERS:
            return False
    if v.tag in ("sym", "t"):
        if v.id in val.ints:
            x = D(round(x))
        if v.id in VV.NONNEG and x < 0:
            return False
        val.set(v, x)
        return True
    return False


def fix_bool(val, d, want, depth=0):
    """make the condition d come out as want"""
    if d.tag == "bool":
        return d.a is want
    if depth > 6:
        return False
    try:
        if val.truth(d) is want:
            return True
    except Touch:
        return False
    leaf = TRUE if want else FALSE
    for _ in range(6):
        # a random path to the wanted leaf
        path = []
        x = d
        while x.tag == "dec":
            ways = [(w, y) for w, y in ((True, x.a[1]), (False, x.a[2])) if y is leaf or y.tag == "dec"]
            if not ways:
                break
            w, y = val.rng.choice(ways)
            path.append((ATOMS[x.a[0]], w))
            x = y
        if x is not leaf:
            continue
        try:
            for a, w in path:
                if val.atom(a) != w and not fix(val, a, w, depth + 1):
                    break
            if val.truth(d) is want:
                return True
        except Touch:
            pass
    return False


def fix_exists(val, v, want, depth):
    _, n, b, c = v.a
    k = val.times(n)
    if want:
        if k < 1:
            if not set_num(val, n, D(val.rng.choice((1, 1, 2, 3))), depth + 1):
                return False
            k = val.times(n)
        return fix_bool(val, VV.subst(c, {b: num(val.rng.randrange(k))}), True, depth + 1) if k else False
    if val.rng.random() < 0.2 and set_num(val, n, D(0), depth + 1):
        return True
    return all([fix_bool(val, VV.subst(c, {b: num(i)}), False, depth + 1) for i in range(k)])


def fix(val, a, want, depth=0):
    r = val.rng
    if a.kind in ("gt", "ge", "eqr"):
        t = dec_of(a.a[1])
        isint = a.kind == "ge"
        if a.kind == "eqr" and want:
            return set_num(val, a.a[0], t)
        if isint:
            d = r.choice((0, 0, 0, 1, 2, 5, 20))
            return set_num(val, a.a[0], t + d if want else t - 1 - d)
        s = D(r.choice(("1e-9", "1e-6", "1e-4", "1e-3", "0.01", "0.1", "0.5", "1", "1", "3", "30")))
        if r.random() < 0.5:
            s *= max(D(1), abs(t))
        elif t:
            s = abs(t) * D(r.choice(("0.1", "0.3", "0.7", "1", "2")))
        s *= D(r.randint(200, 1000)) / 1000
        if a.kind == "eqr":
            return set_num(val, a.a[0], t + s * r.choice((1, -1)))
        if not want and (r.random() < 0.3 or (t == 0 and VV._known_nonneg_real(a.a[0]))):
            return set_num(val, a.a[0], t)
        return set_num(val, a.a[0], t + (s if want else -s))
    if a.kind == "eq":
        if want:
            x, y = a.a
            try:
                vx, vy = val.e(x), val.e(y)
                if isinstance(vx, D) and isinstance(vy, D):
                    return set_num(val, x, vy) or set_num(val, y, vx)
            except Touch:
                return False
            for u, w in ((x, y), (y, x)):
                if u.tag in ("sym", "t", "unk"):
                    val.union(u, w)
                    return True
            return False
        # make them differ: re-salt an override
        for u in a.a:
            if u.id in val.ov:
                del val.ov[u.id]
                val.memo.clear()
                return True
        return False
    v = a.a[0]
    if v.tag == "unk" or has_unk(v):
        return False
    if v.tag == "t" and v.a[0] in BINDERS:
        try:
            return v.a[0] == "exists" and fix_exists(val, v, want, depth)
        except Touch:
            return False
    val.fb[v.id] = want
    val.memo.clear()
    return True


_binder_memo = {}


def has_binder(v):
    r = _binder_memo.get(v)
    if r is None:
        if v.tag == "t" and v.a[0] in BINDERS or v.tag == "seq" and any(p[0] == "map" for p in v.a):
            r = True
        else:
            r = any(has_binder(x) for x in children(v))
        _binder_memo[v] = r
    return r


def satisfy(cube, seed, tries=40, steps=60, expand=False):
    """yield valuations satisfying every literal of the cube"""
    ints = _int_syms(cube)
    eqs = [(a, w) for a, w in cube if a.kind == "eq" and w]
    rest = [(a, w) for a, w in cube if not (a.kind == "eq" and w)]
    for k in range(tries):
        val = Val(seed * 1000 + k)
        val.ints |= ints
        val.expand = expand
        if expand:
            val.special = k % 2 == 1
            val.iscale = (4, 4, 9, 2)[k % 4]
        elif k % 3 == 2:
            val.iscale = (10 ** 3, 10 ** 6, 2 ** 33, 10 ** 12)[k // 3 % 4]
        ok = True
        try:
            for a, w in eqs:
                if val.atom(a) != w and not fix(val, a, w):
                    ok = False
                    break
        except Touch:
            ok = False
        if not ok:
            continue
        for _ in range(steps):
            bad = []
            try:
                for a, w in cube:
                    if val.atom(a) != w:
                        bad.append((a, w))
            except Touch:
                bad = None
                break
            if not bad:
                break
            a, w = val.rng.choice(bad)
            if not fix(val, a, w):
                a, w = val.rng.choice(bad)
                if not fix(val, a, w):
                    break
        else:
            bad = [1]
        if bad == []:
            yield val


def _differ(x, y, tol):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return True
        return any(_differ(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, bool) or isinstance(y, bool):
        return x is not y
    if isinstance(x, D) and isinstance(y, D):
        return abs(x - y) > tol * max(D(1), abs(x), abs(y))
    return x != y


TOL = D("1e-25")


class Diff:
    def __init__(self, kind, cube, impl, spec, why=""):
        self.kind, self.cube, self.impl, self.spec, self.why = kind, cube, impl, spec, why

    def __repr__(self):
        return "%s under [%s]: source gives %s, property requires %s%s" % (
            self.kind, " & ".join(("" if w else "not ") + show_atom(a) for a, w in self.cube) or "always",
            show(self.impl)[:600], show(self.spec)[:600], (" (" + self.why + ")") if self.why else "")


class Comparer:
    def __init__(self, max_cubes=60, vals=3, tol=TOL, prune=False):
        self.prune = prune
        self.tol = tol
        self.max_cubes = max_cubes
        self.vals = vals
        self.cubes = 0
        self.cmps = 0
        self.equal_by_eval = 0
        self.proved = 0
        self.infeasible = []

    def diff(self, a, b, care=TRUE):
        """list of Diffs of kind definite/unknown"""
        self.cmps += 1
        if a is b or care is FALSE:
            return []
        out = []
        has, split = VV.HALVES
        if has(a) or has(b):
            a, b = split(a), split(b)
            if a is b:
                return []
        # structured values: compare part by part
        if a.tag == b.tag == "rec" and a.a[0] == b.a[0] and [k for k, _ in a.a[1]] == [k for k, _ in b.a[1]]:
            for (k, x), (_, y) in zip(a.a[1], b.a[1]):
                out += self.diff(x, y, care)
            return out
        if a.tag == b.tag == "mat" and a.a[:2] == b.a[:2]:
            for x, y in zip(a.a[2], b.a[2]):
                out += self.diff(x, y, care)
                if any(d.kind == "definite" for d in out):
                    break
            return out
        n = 0
        for cube, x, y in self.cubes_of(a, b, care):
            n += 1
            if n > self.max_cubes:
                out.append(Diff("unknown", [], a, b, "more than %d regions differ" % self.max_cubes))
                break
            self.cubes += 1
            d = self.classify(cube, x, y)
            if d is not None:
                out.append(d)
                if d.kind == "definite":
                    break
        return out

    def cubes_of(self, a, b, care):
        seen = {}
        NO = object()

        def same(x, y):
            if x is y:
                return True
            if x.tag == "num" and y.tag == "num":
                try:
                    return clear_den(x, y) is ZERO
                except TooBig:
                    return False
            return False

        def dead(x, y, c):
            """no difference below"""
            k = (x, y, c)
            r = seen.get(k)
            if r is not None:
                return r
            if c is FALSE or x is y:
                r = True
            else:
                o = min(top(x), top(y), top(c))
                if o == 1 << 60:
                    r = same(x, y)
                else:
                    r = dead(cof(x, o, True), cof(y, o, True), cof(c, o, True)) and \
                        dead(cof(x, o, False), cof(y, o, False), cof(c, o, False))
            seen[k] = r
            return r

        def go(x, y, c, cube):
            if dead(x, y, c):
                return
            o = min(top(x), top(y), top(c))
            if o == 1 << 60:
                yield cube, x, y
                return
            for w in (True, False):
                cc = cube + [(ATOMS[o], w)]
                if contradictory(cc):
                    continue
                if self.prune and linear_contradiction(cc):
                    self.proved += 1
                    continue
                yield from go(cof(x, o, w), cof(y, o, w), cof(c, o, w), cc)
        yield from go(a, b, care, [])

    def classify(self, cube, x, y):
        if linear_contradiction(cube):
            self.proved += 1
            return None
        ux = has_unk(x) or has_unk(y)
        found = 0
        touched = None
        steppy = _steppy(x) or _steppy(y)
        binds = has_binder(x) or has_binder(y) or any(has_binder(v) for a, _ in cube for v in a.a if isinstance(v, V))
        steppy = steppy or binds
        for val in satisfy(cube, 7, tries=30 if not ux else 10, expand=binds):
            try:
                vx, vy = val.e(x), val.e(y)
            except Touch as t:
                touched = str(t)
                continue
            found += 1
            if _differ(vx, vy, self.tol):
                return Diff("definite", cube, x, y)
            if found >= (8 * self.vals if binds else 4 * self.vals if steppy else self.vals):
                break
        if found:
            self.equal_by_eval += 1
            return None
        if touched or ux:
            return Diff("unknown", cube, x, y, touched or "; ".join((find_unks(x) + find_unks(y))[:2]))
        # no consistent assignment found: treated as contradictory, counted
        if any(has_unk(v) for a, _ in cube for v in a.a if isinstance(v, V)):
            return Diff("unknown", cube, x, y, "condition not modelled")
        self.infeasible.append((cube, x, y))
        return None


_STEP = {}


def _steppy(v):
    """contains functions that agree with another one on a range and differ beyond (integer division, rounding, wrapping)"""
    r = _STEP.get(v.id)
    if r is None:
        _STEP[v.id] = False
        r = v.tag == "t" and v.a[0] in ("idiv", "imod", "floor", "ceil", "round", "f2i", "wrap", "to_string", "f32")
        if not r and v.tag == "num":
            r = any(_steppy(BYID[a]) for m, _ in v.a for a, _ in m)
        elif not r:
            st = [v.a]
            while st and not r:
                z = st.pop()
                if isinstance(z, V):
                    r = _steppy(z)
                elif isinstance(z, (tuple, list)):
                    st.extend(z)
        _STEP[v.id] = r
    return r


def _lin(v):
    """{monomial: coefficient} of a numeric normal form, constant under ()"""
    if v.tag != "num":
        return {((v.id, 1),): F(1)} if v.tag in ("sym", "t") else None
    return {m: F(c) for m, c in v.a}


def _fm(cons, limit=800):
    """Fourier-Motzkin elimination of constraints (coefs, const, strict): sum + const >= 0 (> 0); True if unsatisfiable"""
    cons = list(cons)
    while True:
        for c, k, st in cons:
            if not c and (k < 0 or (st and k == 0)):
                return True
        vs = {}
        for c, k, st in cons:
            for m, q in c.items():
                a = vs.setdefault(m, [0, 0])
                a[q > 0] += 1
        if not vs:
            return False
        m = min(vs, key=lambda z: vs[z][0] * vs[z][1])
        pos = [x for x in cons if x[0].get(m, 0) > 0]
        ng = [x for x in cons if x[0].get(m, 0) < 0]
        cons = [x for x in cons if not x[0].get(m, 0)]
        if len(pos) * len(ng) + len(cons) > limit:
            return False
        new = set()
        for c1, k1, s1 in pos:
            for c2, k2, s2 in ng:
                a, b = -c2[m], c1[m]
                c = {}
                for z, q in c1.items():
                    c[z] = c.get(z, F(0)) + a * q
                for z, q in c2.items():
                    c[z] = c.get(z, F(0)) + b * q
                c = {z: q for z, q in c.items() if q}
                k = a * k1 + b * k2
                key = (frozenset(c.items()), k, s1 or s2)
                if key not in new:
                    new.add(key)
                    cons.append((c, k, s1 or s2))


def _mulmon(m, i):
    d = dict(m)
    d[i] = d.get(i, 0) + 1
    return tuple(sorted((k, e) for k, e in d.items() if e))


def linear_contradiction(cube):
    """the order literals of the cube have no common solution: Fourier-Motzkin elimination, with non-linear monomials
    taken as unknowns and the defining inequalities of integer quotients added.  True is a proof."""
    cons = []
    seen = set()
    quots = []

    def put(l, k, strict):
        c = dict(l)
        k += c.pop((), F(0))
        cons.append(({m: q for m, q in c.items() if q}, k, strict))

    def facts(l):
        for m in list(l):
            for i, e in m:
                if i in seen:
                    continue
                seen.add(i)
                w = BYID[i]
                if i in VV.NONNEG:
                    put({((i, 1),): F(1)}, F(0), False)
                if w.tag == "t" and w.a[0] == "idiv" and isinstance(w.a[1], V) and isinstance(w.a[2], V):
                    n, d = _lin(w.a[1]), _lin(w.a[2])
                    if n is not None and d is not None:
                        quots.append((i, n, d))
                        facts(n)
                        facts(d)
                if w.tag == "t" and w.a[0] in ("floor", "ceil", "f2i") and isinstance(w.a[1], V):
                    n = _lin(w.a[1])
                    if n is not None:
                        r = dict(n)
                        r[((i, 1),)] = r.get(((i, 1),), F(0)) - 1          # x - q
                        ng = {m2: -c2 for m2, c2 in r.items()}
                        put(r, F(0 if w.a[0] == "floor" else 1), w.a[0] != "floor")
                        put(ng, F(0 if w.a[0] == "ceil" else 1), w.a[0] != "ceil")
                        facts(n)
    for a, w in cube:
        if a.kind not in ("gt", "ge", "eqr"):
            continue
        l = _lin(a.a[0])
        if l is None:
            continue
        t = F(a.a[1])
        neg = {m: -c for m, c in l.items()}
        if a.kind == "eqr":
            if w:
                put(l, -t, False)
                put(neg, t, False)
        elif a.kind == "ge":
            if w:
                put(l, -t, False)
            else:
                put(neg, t - 1, False)
        elif w:
            put(l, -t, True)
        else:
            put(neg, t, False)
        facts(l)
    if _fm(cons):
        return True
    for i, n, d in quots:
        def con(l, k):
            c = dict(l)
            k += c.pop((), F(0))
            return ({m: q for m, q in c.items() if q}, k, False)
        ngd = {m: -c for m, c in d.items()}
        if not _fm(cons + [con(ngd, F(0))]):
            continue                                    # divisor not known positive
        r = dict(n)                                     # remainder n - d*q
        for m, c in d.items():
            z = _mulmon(m, i)
            r[z] = r.get(z, F(0)) - c
        ngr = {m: -c for m, c in r.items()}
        plus = lambda u, v, k: put({m: u.get(m, F(0)) + v.get(m, F(0)) for m in set(u) | set(v)}, F(k), False)
        plus(ngr, d, -1)                                # r <= d - 1
        plus(r, d, -1)                                  # r >= -(d - 1)
        ngn = {m: -c for m, c in n.items()}
        one = {((i, 1),): F(1)}
        if _fm(cons + [con(ngn, F(-1))]):               # numerator not negative
            put(r, F(0), False)
            put(one, F(0), False)
        elif _fm(cons + [con(n, F(-1))]):               # numerator not positive
            put(ngr, F(0), False)
            put({((i, 1),): F(-1)}, F(0), False)
    return bool(quots) and _fm(cons)


def contradictory(cube):
    """cheap theory check on the last literal against the others: thresholds and equalities"""
    a, w = cube[-1]
    if a.kind in ("gt", "ge", "eqr"):
        lo, hi, lo_s, hi_s = None, None, False, False   # bounds with strictness
        eq = None
        ne = set()
        for b, u in cube:
            if b.kind != a.kind and not (b.kind in ("gt", "eqr") and a.kind in ("gt", "eqr")):
                continue
            if b.a[0] is not a.a[0]:
                continue
            t = b.a[1]
            if b.kind == "gt":
                if u:
                    if lo is None or t >= lo:
                        lo, lo_s = t, True
                elif hi is None or t < hi:
                    hi, hi_s = t, False
            elif b.kind == "ge":
                if u:
                    if lo is None or t > lo:
                        lo, lo_s = t, False
                elif hi is None or t <= hi:
                    hi, hi_s = t, True
            else:
                if u:
                    if eq is not None and eq != t:
                        return True
                    eq = t
                else:
                    ne.add(t)
        if a.kind == "ge" and lo is not None and hi is not None and lo > hi - 1:
            return True
        if eq is not None:
            if eq in ne or (lo is not None and (eq < lo or (lo_s and eq == lo))) or (hi is not None and (eq > hi or (hi_s and eq == hi))):
                return True
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and (lo_s or hi_s or lo in ne)):
                return True
        return False
    if a.kind == "eq":
        rep = {}

        def find(i):
            while i in rep:
                i = rep[i]
            return i
        for b, u in cube:
            if b.kind == "eq" and u:
                x, y = find(b.a[0].id), find(b.a[1].id)
                if x != y:
                    rep[x] = y
        consts = {}
        for b, u in cube:
            if b.kind == "eq":
                for v in b.a:
                    if v.tag in ("str", "const", "null") or (v.tag == "seq" and not syms_of(v) and not has_unk(v)):
                        r = find(v.id)
                        if consts.setdefault(r, v) is not v:
                            return True
                if not u and find(b.a[0].id) == find(b.a[1].id):
                    return True
    return False
