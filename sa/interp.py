"""Value-flow abstract interpreter over the extracted program.

One structured pass per function.  Branches are joined with decision diagrams
(gated values), never enumerated as paths; callees defined in the repository are
inlined, library callees are modelled (models.py) or yield an explicit unknown;
loops are summarised by induction/append/search/sum recognition, never iterated
on symbolic bounds.  Nothing is executed and no solver is involved.
"""
from fractions import Fraction as F
from .values import *
from . import values as VV


class Dead(Exception):
    """the current abstract state is unreachable"""


ENDED = T("lifetime-ended")


class St:
    __slots__ = ("store", "pc")

    def __init__(self, store, pc):
        self.store = store
        self.pc = pc

    def clone(self):
        return St(dict(self.store), self.pc)


class Frame:
    __slots__ = ("fn", "T", "env", "this", "rets", "brk", "cont", "depth", "retref", "locals")

    def __init__(self, fn, this, depth):
        self.fn = fn
        self.T = fn["_T"]
        self.env = {}
        self.this = this
        self.rets = []
        self.brk = []
        self.cont = []
        self.depth = depth
        self.locals = []


class Mode:
    abs_group = False   # SE3/SO3 as opaque group elements with frames
    abs_vec = False     # tangent vectors as opaque vectors
    uuid_bytes = False
    overflow = False    # record signed overflow as an undefined-behaviour event
    lifetimes = False   # end the lifetime of temporaries and locals; later use is an undefined-behaviour event
    guarded = None      # (member names, class): members that may be used only with a mutex of their object held
    mutexes = ()        # the mutex members of that class
    opaque_fns = ()

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


UNROLL = 80
OPEN = 6


class NoSummary(Exception):
    pass


LOCKED, UNLOCKED = const("locked"), const("unlocked")

# -------------------------------------------------------------------- sequences
ELEM = {}      # id of an opaque sequence value -> element builder(base) -> V


def size_op(S):
    return atom(mark_nonneg(T("size", S)))


def seq_max(v):
    """the largest number of elements of a sequence built element by element; 0 if there is no small bound"""
    if v.tag == "seq":
        return len(v.a) if len(v.a) <= 6 and all(x[0] == "one" for x in v.a) else 0
    if v.tag == "dec":
        a, b = v.a[1], v.a[2]
        x, y = seq_max(a), seq_max(b)
        ok = (x or (a.tag == "seq" and not a.a)) and (y or (b.tag == "seq" and not b.a))
        return max(x, y) if ok else 0
    return 0


def seq_size(S):
    def leaf(s):
        if s.tag == "seq":
            n = ZERO
            for p in s.a:
                if p[0] == "one":
                    n = add(n, ite(p[1], ONE, ZERO))
                elif p[0] == "all":
                    n = add(n, seq_size(p[1]))
                elif p[0] == "map":
                    if p[4] is TRUE:
                        n = add(n, p[1])
                    else:
                        n = add(n, atom(mark_nonneg(T("count", p[1], p[2], p[4]))))
            return n
        if s.tag == "mat":
            return num(s.a[0] * s.a[1])
        if s.tag == "str":
            return num(len(s.a))
        return size_op(s)
    return lift(leaf, S)


def at_opaque(S, idx):
    base = T("at", S, idx)
    b = ELEM.get(S.id)
    return b(base) if b else base


def seq_at(S, idx):
    """element idx (assumed in range)"""
    def leaf(s, i):
        if s.tag == "seq":
            return _at_parts(s.a, i)
        if s.tag == "mat":
            c = nconst(i)
            if c is not None and 0 <= c < s.a[0] * s.a[1]:
                R, C = s.a[0], s.a[1]
                k = int(c)
                return s.a[2][(k % R) * C + k // R]
            return atom(T("at", s, i))
        return at_opaque(s, i)
    r = None
    # structured results cannot be decision leaves of lift when they are records
    return lift_struct(leaf, S, idx)


def lift_struct(fn, *vals):
    """lift with structural merging of the results"""
    o = min(top(v) for v in vals)
    if o == 1 << 60:
        return fn(*vals)
    hi = lift_struct(fn, *[cof(v, o, True) for v in vals])
    lo = lift_struct(fn, *[cof(v, o, False) for v in vals])
    return merge(dec(o, TRUE, FALSE), hi, lo)


def _at_parts(parts, i):
    if not parts:
        return unk("index out of range")
    p = parts[0]
    rest = parts[1:]
    if p[0] == "one":
        if p[1] is TRUE:
            if not rest:
                return p[2]
            c = c_eq(i, ZERO, True)
            if c is TRUE:
                return p[2]
            r = lift_struct(lambda j: _at_parts(rest, j), sub(i, ONE))
            return merge(c, p[2], r)
        r1 = _at_parts(rest, i) if rest else unk("index out of range")
        r2 = lift_struct(lambda j: _at_parts((("one", TRUE, p[2]),) + tuple(rest), j), i)
        return merge(p[1], r2, r1)
    if p[0] == "all":
        if not rest:
            return seq_at(p[1], i)
        n = seq_size(p[1])
        c = c_lt(i, n, True)
        if c is TRUE:
            return seq_at(p[1], i)
        r = lift_struct(lambda j: _at_parts(rest, j), sub(i, n))
        return merge(c, seq_at(p[1], i), r)
    if p[0] == "map" and p[4] is TRUE:
        v = subst(p[3], {p[2]: i})
        if not rest:
            return v
        c = c_lt(i, p[1], True)
        r = lift_struct(lambda j: _at_parts(rest, j), sub(i, p[1]))
        return merge(c, v, r)
    return T("at", seq(parts), i)


def as_parts(s):
    if s.tag == "seq":
        return list(s.a)
    return [("all", s)]


def seq_push(S, v):
    return lift_struct(lambda s: seq(as_parts(s) + [("one", TRUE, v)]), S)


def seq_concat(A, B):
    return lift_struct(lambda a, b: seq(as_parts(a) + as_parts(b)), A, B)


def _rb_at(s, i):
    if s.tag in ("seq", "mat") or s.tag == "dec":
        return seq_at(s, i)
    return lift_struct(lambda j: T("at", s, j), i)


def _rb_size(s):
    if s.tag in ("seq", "mat", "str", "dec"):
        return seq_size(s)
    r = T("size", s)
    mark_nonneg(r)
    return r


def _rb_fld(b, name):
    def leaf(x):
        if x.tag == "rec":
            r = rec_get(x, name)
            if r is not None:
                return r
        return T("fld", x, name)
    return lift_struct(leaf, b)


def _rb_el(b, r, c):
    def leaf(x):
        if x.tag == "mat":
            return x.a[2][r * x.a[1] + c]
        return T("el", x, r, c)
    return lift_struct(leaf, b)


VV.T_REBUILD["at"] = _rb_at
VV.T_REBUILD["size"] = _rb_size
VV.T_REBUILD["fld"] = _rb_fld
VV.T_REBUILD["el"] = _rb_el

# ----------------------------------------------------------------------- binders
_hmemo = {}


def height(v):
    r = _hmemo.get(v)
    if r is None:
        r = 0
        if v.tag == "sym" and v.a[0].startswith("#b"):
            r = int(v.a[0][2:])
        for c in children(v):
            r = max(r, height(c))
        _hmemo[v] = r
    return r


def close(k, vs):
    """bind the free symbol k in the values vs; returns (bound symbol, values)"""
    h = 1 + max([height(v) for v in vs] + [0])
    b = sym("#b%d" % h)
    mark_nonneg(b)
    m = {k: b}
    return b, [subst(v, m) for v in vs]


def mk_sum(n, k, body):
    if n.tag == "dec":
        return lift_struct(lambda x: mk_sum(x, k, body), n)
    if k not in syms_of(body):
        return mul(n, body)
    c = nconst(n)
    if c is not None and c <= 16:
        r = ZERO
        for i in range(int(c)):
            r = add(r, subst(body, {k: num(i)}))
        return r
    b, (n2, v) = close(k, [n, body])
    return lift(lambda x: atom(T("sum", x, b, v)), n2)


def mk_exists(n, k, cond):
    if n.tag == "dec":
        return lift_struct(lambda x: mk_exists(x, k, cond), n)
    if cond is FALSE:
        return FALSE
    if k not in syms_of(cond):
        return b_and(c_gt(n, ZERO, True), cond)
    c = nconst(n)
    if c is not None and c <= 16:
        return b_any(subst(cond, {k: num(i)}) for i in range(int(c)))
    b, (n2, v) = close(k, [n, cond])
    return lift(lambda x: lit(mk_atom("b", T("exists", x, b, v))), n2)


def mk_first(n, k, cond):
    """least k < n with cond, n if there is none"""
    if n.tag == "dec":
        return lift_struct(lambda x: mk_first(x, k, cond), n)
    if cond is FALSE:
        return n
    if k not in syms_of(cond):
        return merge(cond, ZERO, n)
    c = nconst(n)
    if c is not None and c <= 8:
        r = n
        for i in reversed(range(int(c))):
            r = merge(subst(cond, {k: num(i)}), num(i), r)
        return r
    if c is not None and c <= 64:
        for i in range(int(c)):
            x = subst(cond, {k: num(i)})
            if x is TRUE:
                return num(i)
            if x is not FALSE:
                break
        else:
            return n
    b, (n2, v) = close(k, [n, cond])
    return lift(lambda x: atom(mark_nonneg(T("first", x, b, v))), n2)


def mk_iter(i, n, b, *ib):
    """component i of the state after n iterations: initial values and bodies (over b and #g<j><b>)"""
    m = len(ib) // 2
    st, bodies = list(ib[:m]), ib[m:]
    c = nconst(n)
    if c is not None and c <= 8:
        gs = [sym("#g%d%s" % (j, b.a[0])) for j in range(m)]
        for k in range(int(c)):
            sub_ = dict(zip(gs, st))
            sub_[b] = num(k)
            st = [subst(x, sub_) for x in bodies]
        return st[i]
    return T("iter", i, n, b, *ib)


VV.T_REBUILD["sum"] = mk_sum
VV.T_REBUILD["exists"] = mk_exists
VV.T_REBUILD["first"] = mk_first
VV.T_REBUILD["iter"] = mk_iter
VV.T_REBUILD["while"] = lambda b, c: mark_nonneg(T("while", b, c))
VV.T_REBUILD["count"] = lambda n, b, g: mark_nonneg(T("count", n, b, g))
VV.T_REBUILD["foreach"] = lambda *a: T("foreach", *a)


def norm_map(n, k, v, guard=TRUE):
    """sequence of v(k) for k < n with guard(k)"""
    c = nconst(n)
    if c is not None and c <= 64:
        return [("one", subst(guard, {k: num(i)}), subst(v, {k: num(i)})) for i in range(int(c))]
    if guard is TRUE and n.tag == "num" and len(n.a) == 1 and n.a[0][1] == 1 and len(n.a[0][0]) == 1:
        (aid, e), = n.a[0][0]
        t = BYID[aid]
        if e == 1 and t.tag == "t" and t.a[0] == "size":
            if seq_at(t.a[1], atom(k)) is v:
                return [("all", t.a[1])]
    b, (n2, v2, g2) = close(k, [n, v, guard])
    return [("map", n2, b, v2, g2)]


def _uuid_id(I, p, node):
    return I.load(I.extend(p, ("f", "id_")), node) if I.is_ptr(p) else I.step(p, ("f", "id_"), node)


def _uuid_eq(I, node, this, args):
    a, b = _uuid_id(I, this, node), _uuid_id(I, args[0], node)
    return NotImplemented if a is None or b is None else c_eq(a, b)


def _uuid_ne(I, node, this, args):
    r = _uuid_eq(I, node, this, args)
    return r if r is NotImplemented else b_not(r)


def _uuid_null(I, node, this, args):
    a = _uuid_id(I, this, node)
    return NotImplemented if a is None else c_eq(a, seq([("one", TRUE, ZERO)] * 16))


UUID_CONTRACTS = {"resim::UUID::operator==": _uuid_eq, "resim::UUID::operator!=": _uuid_ne, "resim::UUID::is_null": _uuid_null}


# -------------------------------------------------------------------- interpreter
class Interp:
    def __init__(self, prog, mode=None, contracts=None):
        self.prog = prog
        self.mode = mode or Mode()
        self.contracts = contracts or {}
        if not self.mode.uuid_bytes:
            # equality of identifiers is that of their bytes: decided once, byte by byte (specs/utils.py run_uuid)
            self.contracts = dict(UUID_CONTRACTS, **self.contracts)
        self.st = St({}, TRUE)
        self.frames = []
        self.throws = [[]]        # stack of lists of (pc, exc V, store)
        self.effects = []         # (pc, V)
        self.ub = []
        self.lost = []              # (pc, kind, loc)
        self.i2f = []             # integers converted to floating point: (pc, value, loc)
        self.cells = 0
        self.unsupported = []
        self.visited = set()
        self.hidden = {}          # cell -> name of hidden state (static locals, mutable globals)
        self.nloops = 0
        self.ncalls = 0
        self.written = set()
        from . import models
        self.models = models
        self.temps = []

    # ---- basics ----------------------------------------------------------------
    def fr(self):
        return self.frames[-1]

    def loc(self, node=None):
        f = self.frames[-1].fn if self.frames else None
        return "%s:%s" % (f["file"] if f else "?", (node or {}).get("l", f["line"] if f else "?"))

    def unk(self, why, node=None):
        self.unsupported.append((why, self.loc(node)))
        return unk("%s @%s" % (why, self.loc(node)))

    def alloc(self, v, name="t"):
        self.cells += 1
        c = "%s#%d" % (name, self.cells)
        self.st.store[c] = v
        return c

    # ---- lifetimes ------------------------------------------------------------------
    def full_expression(self, fn):
        """run fn as a full expression: its temporaries end with it"""
        if not self.mode.lifetimes:
            return fn()
        self.temps.append([])
        try:
            return fn()
        finally:
            self.end_lifetimes(self.temps.pop())

    def lose(self, why, node=None):
        """a change the analysis cannot place: nothing read afterwards can be relied on"""
        self.lost.append("%s @%s" % (why, self.loc(node) if node else ""))
        return self.unk(why, node)

    def end_lifetimes(self, cells):
        for c in reversed(cells):
            if c in self.st.store:
                self.release(self.st.store[c])
                self.st.store[c] = ENDED

    # ---- locks ----------------------------------------------------------------------
    def release(self, v, cond=TRUE):
        """the end of a lock object gives back the mutex it owns"""
        if v.tag == "dec":
            at = dec(v.a[0], TRUE, FALSE)
            self.release(v.a[1], b_and(cond, at))
            self.release(v.a[2], b_and(cond, b_not(at)))
        elif v.tag == "rec" and v.a[0] == "lock":
            c = b_and(cond, rec_get(v, "owned"))
            if c is not FALSE:
                m = rec_get(v, "m")
                self.store(m, merge(c, UNLOCKED, self.load(m)))

    def held(self, v):
        return lift(lambda x: TRUE if x is LOCKED else FALSE, v)

    def acquire(self, m, node, cond=TRUE):
        old = self.load(m, node)
        self.ubev(b_and(cond, self.held(old)), "mutex already held", node)
        self.store(m, merge(cond, LOCKED, old), node)

    def check_guard(self, cell, path, node):
        """the guarded members of an object may be used only while a mutex of that object is held"""
        names, cls = self.mode.guarded
        for i, st in enumerate(path):
            if st[0] == "f" and st[1] in names:
                o = self.read(self.st.store[cell], path[:i], node)
                if o.tag == "rec" and o.a[0] == cls:
                    h = FALSE
                    for k, x in o.a[1]:
                        if k in self.mode.mutexes:
                            h = b_or(h, self.held(x))
                    self.ubev(b_not(h), "use of %s without its mutex" % st[1], node)
                    return

    def effect(self, v):
        self.effects.append((self.st.pc, v))

    def ubev(self, cond, kind, node=None):
        c = b_and(self.st.pc, cond)
        if c is not FALSE:
            self.ub.append((c, kind, self.loc(node)))

    def assume(self, c):
        self.st.pc = b_and(self.st.pc, c)
        if self.st.pc is FALSE:
            raise Dead()

    # ---- branching ----------------------------------------------------------------
    def branch(self, cond, then, other):
        """run then/other under cond, merge states; returns merged value (or VOID)"""
        cond = restrict(cond, self.st.pc) if cond.tag == "dec" else cond
        if cond is TRUE:
            return then()
        if cond is FALSE:
            return other()
        base = self.st
        pa, pb = b_and(base.pc, cond), b_and(base.pc, b_not(cond))
        if pa is FALSE:
            return other()
        if pb is FALSE:
            return then()
        self.st = St(dict(base.store), pa)
        va = vb = None
        try:
            va = then()
            sa = self.st
        except Dead:
            sa = None
        self.st = St(dict(base.store), pb)
        try:
            vb = other()
            sb = self.st
        except Dead:
            sb = None
        if sa is None and sb is None:
            raise Dead()
        if sa is None:
            self.st = sb
            return vb
        if sb is None:
            self.st = sa
            return va
        self.st, v = self.join([(sa, va), (sb, vb)])
        return v

    def join(self, items):
        """items: list of (St, value) with disjoint pcs"""
        s, v = items[0]
        for s2, v2 in items[1:]:
            c = restrict(s.pc, b_or(s.pc, s2.pc))
            out = {}
            for k, x in s.store.items():
                y = s2.store.get(k)
                if y is None:
                    out[k] = x
                elif x is y:
                    out[k] = x
                else:
                    out[k] = merge(c, x, y)
            for k, y in s2.store.items():
                if k not in out:
                    out[k] = y
            if v is None or v is VOID or v2 is None or v2 is VOID:
                v = v2 if v is None or v is VOID else v
            elif v is not v2:
                v = merge(c, v, v2)
            s = St(out, b_or(s.pc, s2.pc))
        return s, v

    # ---- memory --------------------------------------------------------------------
    def load(self, p, node=None):
        def leaf(x):
            if x.tag == "ptr":
                cell, path = x.a
                v = self.st.store.get(cell)
                if v is None:
                    return self.unk("read of dead cell %s" % cell, node)
                if self.mode.guarded:
                    self.check_guard(cell, path, node)
                if self.mode.lifetimes:
                    gone = lift(lambda y: TRUE if y is ENDED else FALSE, v)
                    if gone is not FALSE:
                        self.ubev(gone, "use after lifetime", node)
                        v = lift_struct(lambda y: UNDEF if y is ENDED else y, v)
                return self.read(v, path, node)
            if x is NULL:
                return self.unk("null dereference", node)
            if x.tag == "t" and x.a[0] == "strptr":
                return x
            return self.unk("read through unknown pointer", node)
        if p.tag == "dec":
            # null leaves that are reachable are undefined behaviour
            isnull = lift(lambda x: TRUE if x is NULL else FALSE, p)
            if isnull is not FALSE:
                self.ubev(isnull, "null dereference", node)
                if isnull is not TRUE:
                    p = restrict(p, b_not(isnull))
        elif p is NULL:
            self.ubev(TRUE, "null dereference", node)
        return lift_struct(leaf, p)

    def read(self, v, path, node=None):
        for i, st in enumerate(path):
            v = self.step(v, st, node)
        return v

    def step(self, v, st, node=None):
        k = st[0]

        def leaf(x):
            if x.tag == "unk" or x is UNDEF:
                return x
            if k == "f":
                if x.tag == "rec":
                    r = rec_get(x, st[1])
                    if r is not None:
                        return r
                    r = self.models.field_hook(self, x, st[1])
                    if r is not None:
                        return r
                    return self.unk("no field %s in %s" % (st[1], x.a[0]), node)
                if x.tag == "t" or x.tag == "sym":
                    return T("fld", x, st[1])
                return self.unk("field %s of %s" % (st[1], x.tag), node)
            if k == "i":
                return seq_at(x, st[1])
            if k == "blk":
                if x.tag != "mat":
                    return self.models.abs_block(self, x, st, node)
                r0, c0, h, w = st[1:]
                R, C, en = x.a
                return mat(h, w, [en[(r0 + r) * C + c0 + c] for r in range(h) for c in range(w)])
            if k == "T":
                if x.tag == "mat":
                    R, C, en = x.a
                    return mat(C, R, [en[r * C + c] for c in range(C) for r in range(R)])
                return T("transpose", x)
            if k == "diag":
                if x.tag == "mat":
                    R, C, en = x.a
                    return mat(min(R, C), 1, [en[r * C + r] for r in range(min(R, C))])
                return T("diagonal", x)
            if k == "resh":
                if x.tag == "mat":
                    R, C, en = x.a
                    return mat(R * C, 1, [en[r * C + c] for c in range(C) for r in range(R)])
                return x
            if k in ("box", "opt"):
                if x.tag == "rec":
                    return rec_get(x, "v")
                return T(k, x)
            if k == "alt":
                if x.tag == "vari":
                    return x.a[2][st[1]]
                return T("alt", x, st[1])
            return self.unk("step %s" % (st,), node)
        if v.tag == "dec":
            return lift_struct(leaf, v)
        return leaf(v)

    def store(self, p, val, node=None):
        def go(x, cond):
            if x.tag == "dec":
                at = dec(x.a[0], TRUE, FALSE)
                go(x.a[1], b_and(cond, at))
                go(x.a[2], b_and(cond, b_not(at)))
                return
            if x.tag == "ptr":
                cell, path = x.a
                old = self.st.store.get(cell)
                if old is None:
                    self.lose("write to dead cell", node)
                    return
                self.written.add(cell)
                if self.mode.guarded:
                    self.check_guard(cell, path, node)
                new = self.write(old, path, val, node)
                self.st.store[cell] = merge(cond, new, old) if cond is not TRUE else new
                return
            if x is NULL:
                if cond is TRUE:
                    self.ubev(TRUE, "null dereference", node)
                return
            self.lose("write through unknown pointer", node)
        q = restrict(p, self.st.pc) if p.tag == "dec" else p
        if q.tag == "dec":
            isnull = lift(lambda x: TRUE if x is NULL else FALSE, q)
            if isnull is not FALSE:
                self.ubev(isnull, "null dereference", node)
        go(q, TRUE)

    def write(self, v, path, val, node=None):
        if not path:
            return val
        st = path[0]
        k = st[0]
        if v.tag == "dec":
            return lift_struct(lambda x: self.write(x, path, val, node), v)
        if v.tag == "unk":
            return v
        if k == "f":
            if v.tag == "rec":
                old = rec_get(v, st[1])
                if old is None:
                    r = self.models.field_write_hook(self, v, st[1], val if len(path) == 1 else None)
                    if r is not None:
                        return r
                    old = UNDEF
                return rec_set(v, st[1], self.write(old, path[1:], val, node))
            if v is UNDEF:
                return rec("?", {st[1]: self.write(UNDEF, path[1:], val, node)})
            return self.unk("write to field %s of %s" % (st[1], v.tag), node)
        if k == "i":
            idx = nconst(st[1]) if is_num(st[1]) else None
            if v.tag == "mat" and idx is not None:
                R, C, en = v.a
                kk = int(idx)
                j = (kk % R) * C + kk // R
                en = list(en)
                en[j] = self.write(en[j], path[1:], val, node)
                return mat(R, C, en)
            if v.tag == "seq":
                parts = list(v.a)
                if idx is not None and all(p[0] == "one" and p[1] is TRUE for p in parts[:int(idx) + 1]) and int(idx) < len(parts):
                    p = parts[int(idx)]
                    parts[int(idx)] = ("one", TRUE, self.write(p[2], path[1:], val, node))
                    return seq(parts)
                # last element
                if parts and parts[-1][0] == "one" and parts[-1][1] is TRUE and st[1] is sub(seq_size(v), ONE):
                    parts[-1] = ("one", TRUE, self.write(parts[-1][2], path[1:], val, node))
                    return seq(parts)
            old = seq_at(v, st[1])
            return T("upd", v, st[1], self.write(old, path[1:], val, node))
        if k == "blk":
            if v is UNDEF:
                return self.unk("block write", node)
            if v.tag != "mat":
                return self.models.abs_block_write(self, v, st, val if len(path) == 1 else None, node)
            r0, c0, h, w = st[1:]
            sub_ = self.step(v, st, node)
            new = self.write(sub_, path[1:], val, node)
            if new.tag != "mat":
                new = mat(h, w, [self.models.mat_entry(self, new, r, c) for r in range(h) for c in range(w)])
            R, C, en = v.a
            en = list(en)
            for r in range(h):
                for c in range(w):
                    en[(r0 + r) * C + c0 + c] = new.a[2][r * w + c]
            return mat(R, C, en)
        if k == "diag" and v.tag == "mat":
            new = self.write(self.step(v, st, node), path[1:], val, node)
            if new.tag != "mat":
                return self.unk("write to a diagonal", node)
            R, C, en = v.a
            en = list(en)
            for r in range(min(R, C)):
                en[r * C + r] = new.a[2][r]
            return mat(R, C, en)
        if k in ("T", "resh"):
            x = self.step(v, st, node)
            new = self.write(x, path[1:], val, node)
            if v.tag == "mat" and new.tag == "mat":
                R, C, _ = v.a
                if k == "T":
                    return mat(R, C, [new.a[2][c * R + r] for r in range(R) for c in range(C)])
                return mat(R, C, [new.a[2][c * R + r] for r in range(R) for c in range(C)])
            return new
        if k in ("box", "opt"):
            if v.tag == "rec":
                if k == "box" and rec_get(v, "shared") is not None:
                    self.lose("write through shared pointer", node)
                    return rec_set(v, "v", self.unk("write through shared pointer", node))
                return rec_set(v, "v", self.write(rec_get(v, "v"), path[1:], val, node))
        if k == "alt" and v.tag == "vari":
            vals = list(v.a[2])
            vals[st[1]] = self.write(vals[st[1]], path[1:], val, node)
            return vari(v.a[0], v.a[1], vals)
        return self.unk("write step %s on %s" % (k, v.tag), node)

    def extend(self, p, *steps):
        def leaf(x):
            if x.tag == "ptr":
                return ptr(x.a[0], x.a[1] + tuple(steps))
            if x is NULL:
                return NULL
            if x.tag == "unk":
                return x
            return self.unk("member of unknown pointer %s" % show(x))
        return lift(leaf, p)

    # ---- types ----------------------------------------------------------------------
    def t(self, tid, T_=None):
        T_ = T_ or self.fr().T
        return T_[tid]

    def isref(self, d):
        return d["k"] in ("lref", "rref")

    # ---- symbolic inputs ---------------------------------------------------------------
    def symval(self, T_, tid, base):
        d = T_[tid]
        k = d["k"]
        if self.isref(d):
            return self.symval(T_, d["p"], base)
        if k == "bool":
            return bvar(base)
        if k in ("int", "enum"):
            if k == "int" and not d["sg"]:
                mark_nonneg(base)
            mark_int(base)
            return atom(base)
        if k == "float":
            return atom(base)
        if k == "rec":
            m = self.models.sym_record(self, T_, d, base)
            if m is not None:
                return m
            r = self.prog.records.get(d["r"])
            if r and r.get("repo"):
                return self.symrec(d["r"], base)
            return base
        return base

    def symrec(self, key, base):
        fields = {}

        def add_cls(key):
            r = self.prog.records[key]
            for i, b in enumerate(r.get("bases", ())):
                br = self.prog.records.get(b["r"])
                if br and br.get("repo"):
                    add_cls(b["r"])
                else:
                    bt = r["_T"][b["t"]]
                    m = self.models.sym_record(self, r["_T"], bt, T("fld", base, "$base"))
                    fields["$base"] = m if m is not None else T("fld", base, "$base")
            for f in r["fields"]:
                fields[f["name"]] = self.symval(r["_T"], f["t"], T("fld", base, f["name"]))
        add_cls(key)
        return rec(key, fields)

    # ---- defaults ----------------------------------------------------------------------
    def default_value(self, T_, tid, zero=False, node=None):
        d = T_[tid]
        k = d["k"]
        if k in ("int", "float", "enum"):
            return ZERO if zero else UNDEF
        if k == "bool":
            return FALSE if zero else UNDEF
        if k in ("ptr", "nullptr"):
            return NULL if zero else UNDEF
        if k == "array":
            return seq([("one", TRUE, self.default_value(T_, d["p"], zero))] * d["n"])
        if k == "rec":
            m = self.models.default_record(self, T_, d, zero)
            if m is not None:
                return m
            r = self.prog.records.get(d["r"])
            if r and r.get("repo"):
                return self.default_construct(d["r"], zero, node)
            return T("default", d["s"])
        return UNDEF

    def default_construct(self, key, zero=False, node=None):
        r = self.prog.records[key]
        dk = [m for m in r.get("methods", ()) if m.get("ctor") == "default"]
        if dk:
            f = self.prog.functions.get(dk[0]["key"])
            if f is not None and "inits" in f and (f.get("body") is not None):
                return self.construct(f, [], node)
        fields = {}

        def add_cls(key):
            r = self.prog.records[key]
            for b in r.get("bases", ()):
                br = self.prog.records.get(b["r"])
                if br and br.get("repo"):
                    f2 = None
                    for m in br.get("methods", ()):
                        if m.get("ctor") == "default":
                            f2 = self.prog.functions.get(m["key"])
                    if f2 is not None and "inits" in f2 and f2.get("body") is not None:
                        v = self.construct(f2, [], node)
                        fields.update(dict(v.a[1]))
                    else:
                        add_cls(b["r"])
                else:
                    fields["$base"] = self.default_value(r["_T"], b["t"], zero)
            self.frames.append(Frame({"_T": r["_T"], "file": r["file"], "line": r["line"], "q": key}, None, 0))
            try:
                for f in r["fields"]:
                    if "init" in f:
                        fields[f["name"]] = self.rvalue(f["init"], f["t"])
                    else:
                        fields[f["name"]] = self.default_value(r["_T"], f["t"], zero)
            finally:
                self.frames.pop()
        add_cls(key)
        return rec(key, fields)

    def layout(self, key):
        """names of all fields of a record including repo bases"""
        r = self.prog.records[key]
        out = []
        for b in r.get("bases", ()):
            br = self.prog.records.get(b["r"])
            if br and br.get("repo"):
                out += self.layout(b["r"])
            else:
                out.append("$base")
        for f in r.get("fields", ()):
            out.append(f["name"])
        return out

    # ---- moves ----------------------------------------------------------------------
    def moved(self, v):
        """state left behind by a move"""
        t = v.tag
        if t == "rec":
            if v.a[0] == "box":
                return rec_set(rec_set(v, "null", TRUE), "v", UNDEF)
            if v.a[0] == "optional":
                return rec_set(v, "v", self.moved(rec_get(v, "v")))
            if self.models.is_group(v):
                return v
            return rec(v.a[0], {k: self.moved(x) for k, x in v.a[1]})
        if t == "seq" or v.id in ELEM:
            return self.models.moved_seq(self, v)
        if t == "vari":
            return vari(v.a[0], v.a[1], [self.moved(x) for x in v.a[2]])
        if t == "dec":
            return lift_struct(self.moved, v)
        if self.models.is_string(v):
            return T("movedstr")
        return v

    def move_from(self, p, node=None):
        v = self.load(p, node)
        m = self.moved(v)
        if m is not v:
            self.store(p, m, node)
        return v

    # ---- functions -------------------------------------------------------------------
    def find(self, q, nparams=None, pred=None):
        ks = [k for k in self.prog.byq.get(q, ())]
        out = []
        for k in ks:
            f = self.prog.functions[k]
            if nparams is not None and len(f["params"]) != nparams:
                continue
            if pred and not pred(k, f):
                continue
            out.append(k)
        return out

    def call_key(self, key, this, args, node=None):
        f = self.prog.functions.get(key)
        if f is None or ("body" not in f and "inits" not in f):
            return self.no_body(key, this, args, node)
        return self.call(f, this, args, node)

    def no_body(self, key, this, args, node):
        f = self.prog.functions.get(key)
        if node is not None:
            n = node.get("n")
            if n == "operator=" and args and this is not None:
                return self.memberwise_assign(this, args[0], node)
        q = (node or {}).get("q") or (f or {}).get("q")
        c = self.contracts.get(q)
        if c:
            r = c(self, node, this, args)
            if r is not NotImplemented:
                return r
        # nothing is known about it: it may fail and change whatever it can reach
        u = self.unk("no body for %s" % key, node)
        ps = (f or {}).get("params")
        for i, a in enumerate(args or ()):
            if self.is_ptr(a) and a is not NULL:
                if ps and i < len(ps):
                    d = f["_T"][ps[i]["t"]]
                    if d["k"] not in ("lref", "rref", "ptr") or f["_T"][d["p"]].get("const"):
                        continue
                self.store(a, u, node)
        if this is not None and self.is_ptr(this) and not (f or {}).get("const"):
            self.store(this, u, node)
        self.throw(T("exc", strc("unknown")), bvar(u))
        return u

    def memberwise_assign(self, this, arg, node):
        ismove = False
        a = node.get("a") or []
        if a:
            ismove = a[0].get("lv") == 2
        v = self.load(arg, node) if self.is_ptr(arg) else arg
        if ismove and self.is_ptr(arg):
            self.move_from(arg, node)
        # project to the declared class when assigning a base subobject
        old = self.load(this, node)
        if v.tag == "rec" and old.tag == "rec" and node.get("cls") in self.prog.records and self.prog.records[node["cls"]].get("repo"):
            if not self.models.is_group(v):
                names = self.layout(node["cls"])
                new = old
                for n in names:
                    x = rec_get(v, n)
                    if x is not None:
                        new = rec_set(new, n, x)
                v = new
        self.store(this, v, node)
        return this

    def is_ptr(self, v):
        if v is None:
            return False
        if v.tag == "ptr" or v is NULL:
            return True
        if v.tag == "dec":
            return self.is_ptr(v.a[1]) or self.is_ptr(v.a[2])
        return False

    def call(self, f, this, args, node=None):
        c = self.contracts.get(f["q"])
        if c:
            r = c(self, node, this, args)
            if r is not NotImplemented:
                return r
        if f.get("defaulted") and f["name"] == "operator=" and args:
            nd = dict(node or {})
            nd.setdefault("cls", f.get("cls"))
            return self.memberwise_assign(this, args[0], nd)
        if f.get("ctor") and "inits" in f:
            return self.construct(f, args, node)
        if len(self.frames) > 70:
            return self.unk("recursion depth", node)
        self.ncalls += 1
        self.visited.add(f["key"])
        fr = Frame(f, this, len(self.frames))
        self.bind_params(fr, f, args, node)
        return self.run_body(fr, f["body"], self.isref(f["_T"][f["ret"]]))

    def bind_params(self, fr, f, args, node):
        T_ = f["_T"]
        for i, p in enumerate(f["params"]):
            d = T_[p["t"]]
            if i >= len(args):
                fr.env[p["id"]] = ("cell", self.alloc(self.unk("missing argument", node), p["name"] or "p"))
                continue
            a = args[i]
            if self.isref(d):
                if not self.is_ptr(a) and not (a.tag in ("t", "unk")):
                    a = ptr(self.alloc(a, "tmp"))
                elif a.tag in ("t", "unk", "sym") and not self.is_ptr(a):
                    a = ptr(self.alloc(a, "tmp"))
                fr.env[p["id"]] = ("ref", a)
            else:
                if a.tag == "ptr" and (d["k"] in ("int", "float", "bool", "num", "enum") or (d["k"] == "rec" and str(d.get("r", "")).startswith("resim::"))):
                    a = self.load(a, node)
                fr.env[p["id"]] = ("cell", self.alloc(a, p["name"] or "p"))
                fr.locals.append(fr.env[p["id"]][1])

    def run_body(self, fr, body, isref):
        self.frames.append(fr)
        fell = None
        try:
            try:
                self.exec(body)
                fell = self.st
            except Dead:
                pass
        finally:
            self.frames.pop()
        items = [(s, v) for s, v in fr.rets]
        if fell is not None:
            items.append((fell, VOID))
        if not items:
            raise Dead()
        self.st, v = self.join(items)
        if self.mode.lifetimes:
            self.end_lifetimes(fr.locals)
        return v

    def construct(self, f, args, node=None, this=None):
        """run constructor f; returns the constructed value (or fills *this)"""
        cls = f["cls"]
        if this is None:
            c = self.contracts.get(f["q"])
            if c:
                r = c(self, node, None, args)
                if r is not NotImplemented:
                    return r
        kind = f.get("ctor")
        if kind in ("copy", "move") and f.get("defaulted"):
            a = args[0]
            if self.is_ptr(a):
                v = self.move_from(a, node) if kind == "move" else self.load(a, node)
            else:
                v = a
            if this is None:
                if v.tag == "rec" and cls in self.prog.records and v.a[0] != cls and not self.models.is_group(v):
                    names = set(self.layout(cls))
                    v = rec(cls, {k: x for k, x in v.a[1] if k in names})
                return v
            names = self.layout(cls)
            old = self.load(this, node)
            for n in names:
                x = rec_get(v, n) if v.tag == "rec" else None
                if x is not None:
                    old = rec_set(old, n, x)
            self.store(this, old, node)
            return VOID
        if len(self.frames) > 70:
            return self.unk("recursion depth", node)
        self.ncalls += 1
        self.visited.add(f["key"])
        own = this is None
        if own:
            cell = self.alloc(rec(cls, {n: UNDEF for n in self.layout(cls)}), cls.split("::")[-1])
            this = ptr(cell)
        fr = Frame(f, this, len(self.frames))
        self.bind_params(fr, f, args, node)
        self.frames.append(fr)
        try:
            for i in f["inits"]:
                e = i["e"]
                if "base" in i:
                    bd = f["_T"][i["base"]]
                    br = self.prog.records.get(bd["r"])
                    if br and br.get("repo"):
                        self.base_init(e, this, bd["r"])
                    else:
                        self.store(self.extend(this, ("f", "$base")), self.rvalue(e, i["base"]), e)
                elif i.get("deleg"):
                    self.base_init(e, this, cls)
                else:
                    r = self.prog.records.get(cls, {})
                    ft = None
                    for fd in r.get("fields", ()):
                        if fd["name"] == i["field"]:
                            ft = r["_T"][fd["t"]]
                    if ft is not None and self.isref(ft):
                        v = self.eval(e)
                    else:
                        v = self.rvalue(e)
                    self.store(self.extend(this, ("f", i["field"])), v, e)
        finally:
            self.frames.pop()
        if f.get("body"):
            self.run_body(fr, f["body"], False)
        if own:
            return self.st.store[cell]
        return VOID

    def base_init(self, e, this, cls):
        if e["k"] == "Construct" and e.get("f") in self.prog.functions and "inits" in self.prog.functions[e["f"]]:
            args = [self.eval(a) for a in e["a"]]
            f = self.prog.functions[e["f"]]
            c = self.contracts.get(f["q"])
            if c:
                r = c(self, e, None, args)
                if r is not NotImplemented:
                    self.fill(this, r, e)
                    return
            self.construct(f, args, e, this=this)
        else:
            v = self.rvalue(e)
            self.fill(this, v, e)

    def fill(self, this, v, e):
        old = self.load(this, e)
        if v.tag == "rec" and old.tag == "rec":
            for k, x in v.a[1]:
                old = rec_set(old, k, x)
            self.store(this, old, e)
        else:
            self.store(this, v, e)

    # ---- statements -------------------------------------------------------------------
    def exec(self, s):
        if s is None:
            return
        k = s["k"]
        m = getattr(self, "x_" + k, None)
        if m:
            return m(s)
        # expression statement
        self.full_expression(lambda: self.eval(s))

    def x_Block(self, s):
        ls = self.fr().locals
        mark = len(ls)
        for c in s["c"]:
            self.exec(c)
        if self.mode.lifetimes:
            self.end_lifetimes(ls[mark:])

    def x_Null(self, s):
        pass

    def x_Label(self, s):
        self.exec(s["sub"])

    def x_UnsupportedStmt(self, s):
        self.havoc_all("unsupported statement %s" % s.get("cls"), s)

    def x_Decl(self, s):
        for v in s["vars"]:
            self.full_expression(lambda: self.declare(v))

    def declare(self, v):
        fr = self.fr()
        d = fr.T[v["t"]]
        if v.get("static"):
            self.static_local(v)
            return
        if self.isref(d):
            p = self.eval(v["init"])
            if not self.is_ptr(p):
                p = ptr(self.alloc(p, v["name"] or "ref"))
            fr.env[v["id"]] = ("ref", p)
        else:
            if "init" in v:
                val = self.rvalue(v["init"], v["t"])
            else:
                val = self.default_value(fr.T, v["t"])
            fr.env[v["id"]] = ("cell", self.alloc(val, v["name"] or "v"))
            fr.locals.append(fr.env[v["id"]][1])
        for b in v.get("bindings", ()):
            if "hv" in b:
                self.declare(b["hv"])
                fr.env[b["id"]] = fr.env[b["hv"]["id"]]
            elif "e" in b:
                p = self.eval(b["e"])
                if not self.is_ptr(p):
                    p = ptr(self.alloc(p, b["name"]))
                fr.env[b["id"]] = ("ref", p)

    def static_local(self, v):
        fr = self.fr()
        cell = "static:" + v["g"]
        d = fr.T[v["t"]]
        if v.get("constexpr") or (d.get("const") and self.is_const_init(v.get("init"))):
            if cell not in self.st.store:
                self.st.store[cell] = self.rvalue(v["init"], v["t"]) if "init" in v else self.default_value(fr.T, v["t"], True)
        elif cell not in self.st.store:
            # value left by earlier calls: arbitrary
            self.hidden[cell] = v["name"]
            if d["k"] == "rec" and "mutex" in d["s"]:
                self.st.store[cell] = T("mutex", cell)
            else:
                self.st.store[cell] = self.symval(fr.T, v["t"], T("static", strc(v["g"])))
        if self.isref(d):
            fr.env[v["id"]] = ("ref", self.st.store[cell])
        else:
            fr.env[v["id"]] = ("ref", ptr(cell))

    def is_const_init(self, e):
        """initialiser that does not read parameters, locals or mutable state"""
        if e is None:
            return True
        ok = [True]

        def walk(n):
            if isinstance(n, dict):
                if n.get("k") == "Ref" and n.get("dk") == "var":
                    ok[0] = False
                if n.get("k") == "This":
                    ok[0] = False
                for x in n.values():
                    if isinstance(x, (dict, list)):
                        walk(x)
            elif isinstance(n, list):
                for x in n:
                    walk(x)
        walk(e)
        return ok[0]

    def cond(self, e):
        return self.tobool(self.rvalue(e), e)

    def tobool(self, v, e=None):
        def leaf(x):
            if x.tag == "bool":
                return x
            if is_num(x):
                return b_not(c_eq(x, ZERO, True))
            if x is NULL:
                return FALSE
            if x.tag == "ptr":
                return TRUE
            if x.tag == "rec" and x.a[0] == "box":
                return b_not(rec_get(x, "null"))
            if x.tag == "rec" and x.a[0] == "optional":
                return rec_get(x, "has")
            return bvar(x)
        return lift(leaf, v)

    def x_If(self, s):
        if "init" in s:
            self.exec(s["init"])
        if "var" in s:
            self.declare(s["var"])
        if s.get("constexpr") and "cv" in s:
            if s["cv"]:
                self.exec(s["then"])
            elif "else" in s:
                self.exec(s["else"])
            return
        c = self.cond(s["cond"])
        self.branch(c, lambda: self.exec(s["then"]), lambda: self.exec(s.get("else")))

    def x_Return(self, s):
        fr = self.fr()
        v = VOID
        if "e" in s and s["e"] is not None:
            # a lambda frame or function: reference returns keep the pointer
            f = fr.fn
            rt = f["_T"][f["ret"]] if "ret" in f else None
            if rt is not None and self.isref(rt):
                v = self.eval(s["e"])
                if not self.is_ptr(v):
                    v = ptr(self.alloc(v, "ret"))
            else:
                v = self.rvalue(s["e"])
        fr.rets.append((self.st, v))
        raise Dead()

    def x_Break(self, s):
        self.fr().brk[-1].append((self.st, VOID))
        raise Dead()

    def x_Continue(self, s):
        self.fr().cont[-1].append((self.st, VOID))
        raise Dead()

    def x_Switch(self, s):
        if "init" in s:
            self.exec(s["init"])
        if "var" in s:
            self.declare(s["var"])
        v = self.rvalue(s["cond"])
        fr = self.fr()
        # flatten the body into (labels, stmts)
        groups = []

        def flat(st):
            if st["k"] in ("Case", "Default"):
                labels = []
                while st is not None and st["k"] in ("Case", "Default"):
                    labels.append(st)
                    st = st["sub"]
                groups.append([labels, [st] if st is not None else []])
            elif groups:
                groups[-1][1].append(st)
        body = s["body"]
        for st in (body["c"] if body["k"] == "Block" else [body]):
            flat(st)
        conds = []
        allc = FALSE
        for labels, _ in groups:
            c = FALSE
            isdef = False
            for l in labels:
                if l["k"] == "Default":
                    isdef = True
                else:
                    lv = self.rvalue(l["lhs"])
                    if "rhs" in l:
                        c = b_or(c, b_and(c_ge(v, lv, True), c_le(v, self.rvalue(l["rhs"]), True)))
                    else:
                        c = b_or(c, c_eq(v, lv, True))
            conds.append([c, isdef])
            allc = b_or(allc, c)
        fr.brk.append([])
        base = self.st
        cur = None   # fallthrough state
        seen = FALSE
        for (labels, stmts), (c, isdef) in zip(groups, conds):
            if isdef:
                c = b_or(c, b_not(allc))
            pc = b_and(base.pc, c)
            entry = St(dict(base.store), pc) if pc is not FALSE else None
            if cur is not None and entry is not None:
                self.st, _ = self.join([(cur, VOID), (entry, VOID)])
            elif cur is not None:
                self.st = cur
            elif entry is not None:
                self.st = entry
            else:
                continue
            try:
                for st in stmts:
                    self.exec(st)
                cur = self.st
            except Dead:
                cur = None
        outs = fr.brk.pop()
        if cur is not None:
            outs.append((cur, VOID))
        if not any(d for _, d in conds):
            pc = b_and(base.pc, b_not(allc))
            if pc is not FALSE:
                outs.append((St(dict(base.store), pc), VOID))
        if not outs:
            raise Dead()
        self.st, _ = self.join(outs)

    def x_Try(self, s):
        self.throws.append([])
        before = set(self.st.store)
        ok = None
        try:
            try:
                self.exec(s["body"])
                ok = self.st
            except Dead:
                pass
        finally:
            caught = self.throws.pop()
        outs = [(ok, VOID)] if ok is not None else []
        for pc, exc, store in caught:
            handled = False
            for h in s["handlers"]:
                if "t" not in h:
                    match = True
                else:
                    match = self.exc_matches(exc, self.fr().T[h["t"]])
                if match:
                    self.st = St(dict(store), pc)
                    for c, v in store.items():
                        if c not in before and v.tag in ("rec", "dec"):
                            self.release(v)
                    try:
                        if "var" in h:
                            self.fr().env[h["var"]["id"]] = ("ref", ptr(self.alloc(exc.a[2] if exc.tag == "t" and len(exc.a) == 3 else exc, "exc")))
                        self.exec(h["body"])
                        outs.append((self.st, VOID))
                    except Dead:
                        pass
                    handled = True
                    break
            if not handled:
                self.throws[-1].append((pc, exc, store))
        if not outs:
            raise Dead()
        self.st, _ = self.join(outs)

    def exc_matches(self, exc, d):
        while d["k"] in ("lref", "rref"):
            d = self.fr().T[d["p"]]
        want = d.get("r")
        cls = exc.a[1].a if exc.tag == "t" and exc.a[0] == "exc" else None
        if cls is None:
            return True
        todo = [cls]
        while todo:
            c = todo.pop()
            if c == want:
                return True
            r = self.prog.records.get(c)
            if r:
                todo += [b["r"] for b in r.get("bases", ())]
        return want == "std::exception"

    def throw(self, exc, cond=TRUE):
        pc = b_and(self.st.pc, cond)
        if pc is not FALSE:
            self.throws[-1].append((pc, exc, dict(self.st.store)))
        self.assume(b_not(cond))

    # ---- loops --------------------------------------------------------------------------
    def x_For(self, s):
        if "init" in s:
            self.exec(s["init"])
        c, body = self.split_cond(s)
        self.loop(c, body, lambda: self.eval(s["inc"]) if s.get("inc") else None, s)

    def x_While(self, s):
        if "var" in s:
            def c():
                self.declare(s["var"])
                return self.cond(s["cond"])
            return self.loop(c, lambda: self.exec(s["body"]), lambda: None, s)
        c, body = self.split_cond(s)
        self.loop(c, body, lambda: None, s)

    def split_cond(self, s):
        """while (a && b) body  is  while (a) { if (!b) break; body }"""
        if not s.get("cond"):
            return (lambda: TRUE), (lambda: self.exec(s["body"]))
        cs = []

        def flat(e):
            if e["k"] == "Bin" and e.get("op") == "&&":
                flat(e["a"])
                flat(e["b"])
            else:
                cs.append(e)
        flat(s["cond"])
        if len(cs) == 1:
            return (lambda: self.cond(s["cond"])), (lambda: self.exec(s["body"]))

        def body():
            for e in cs[1:]:
                c = self.cond(e)
                c = restrict(c, self.st.pc) if c.tag == "dec" else c
                if c is TRUE:
                    continue
                out = self.st.clone()
                keep = self.st
                self.st = out
                try:
                    self.assume(b_not(c))
                    self.fr().brk[-1].append((self.st, VOID))
                except Dead:
                    pass
                self.st = keep
                self.assume(c)
            self.exec(s["body"])
        return (lambda: self.cond(cs[0])), body

    def x_Do(self, s):
        # the first test is true
        first = [True]

        def c():
            if first[0]:
                first[0] = False
                return TRUE
            return self.cond(s["cond"])

        m = self.mark()
        for bounded, force in ((0, False), (OPEN, False), (0, True)):
            first[0] = True
            try:
                return self.loop1(c, lambda: self.exec(s["body"]), lambda: None, s, bounded, force)
            except NoSummary:
                self.rewind(m)

    def x_RangeFor(self, s):
        if "init" in s:
            self.exec(s["init"])
        rp = self.eval(s["range"])
        if not self.is_ptr(rp):
            rp = ptr(self.alloc(rp, "range"))
        rp = self.models.range_container(self, rp, s)
        v = self.load(rp, s)
        idx = ptr(self.alloc(ZERO, "$idx"))
        fr = self.fr()
        var = s["var"]
        d = fr.T[var["t"]]

        def body():
            i = self.load(idx)
            ep = self.models.element_ptr(self, rp, i, s)
            if self.isref(d):
                if not self.is_ptr(ep):
                    ep = ptr(self.alloc(ep, "el"))
                fr.env[var["id"]] = ("ref", ep)
            else:
                ev = self.load(ep, s) if self.is_ptr(ep) else ep
                fr.env[var["id"]] = ("cell", self.alloc(ev, var["name"]))
            for b in var.get("bindings", ()):
                if "e" in b:
                    p = self.eval(b["e"])
                    if not self.is_ptr(p):
                        p = ptr(self.alloc(p, b["name"]))
                    fr.env[b["id"]] = ("ref", p)
                elif "hv" in b:
                    self.declare(b["hv"])
                    fr.env[b["id"]] = fr.env[b["hv"]["id"]]
            self.exec(s["body"])

        def cnd():
            return c_lt(self.load(idx), seq_size(self.load(rp, s)), True)

        def inc():
            self.store(idx, add(self.load(idx), ONE))
        v0 = self.load(rp, s)
        self.loop(cnd, body, inc, s, seq_max(v0))

    def mark(self):
        fr = self.fr()
        return (self.st.clone(), len(self.effects), len(self.ub), len(self.throws[-1]), len(fr.rets), len(self.unsupported),
                [len(x) for x in fr.brk], [len(x) for x in fr.cont], len(self.lost), self.nloops)

    def rewind(self, m):
        fr = self.fr()
        self.st = m[0].clone()
        del self.effects[m[1]:]
        del self.ub[m[2]:]
        del self.throws[-1][m[3]:]
        del fr.rets[m[4]:]
        del self.unsupported[m[5]:]
        for x, n in zip(fr.brk, m[6]):
            del x[n:]
        for x, n in zip(fr.cont, m[7]):
            del x[n:]
        del self.lost[m[8]:]
        self.nloops = m[9]

    def loop(self, cond, body, inc, node, bounded=0):
        """unrolled while the condition is decided (or, for a container of at most `bounded` conditionally present
        elements, while it is open); summarised otherwise; a loop that has no summary is unrolled in case it ends within
        a few iterations on every path"""
        m = self.mark()
        try:
            return self.loop1(cond, body, inc, node, bounded, False)
        except NoSummary:
            pass
        self.rewind(m)
        try:
            return self.loop1(cond, body, inc, node, max(bounded, OPEN), False)
        except NoSummary:
            pass
        self.rewind(m)
        return self.loop1(cond, body, inc, node, bounded, True)

    def loop1(self, cond, body, inc, node, bounded, force):
        fr = self.fr()
        outs = []
        for it in range(UNROLL + 1):
            try:
                c = cond()
            except Dead:
                if not outs:
                    raise
                self.st, _ = self.join(outs)
                return
            if c.tag == "dec":
                c = restrict(c, self.st.pc)
            if c.tag == "dec":
                c = TRUE if b_and(self.st.pc, b_not(c)) is FALSE else FALSE if b_and(self.st.pc, c) is FALSE else c
            if c is FALSE:
                break
            if c is not TRUE and it < bounded:
                out = self.st.clone()
                self.st, keep = out, self.st
                try:
                    self.assume(b_not(c))
                    outs.append((self.st, VOID))
                except Dead:
                    pass
                self.st = keep
                self.assume(c)
            elif c is not TRUE or it == UNROLL:
                self.symloop(cond, body, inc, node, force)
                break
            fr.brk.append([])
            fr.cont.append([])
            st = None
            try:
                try:
                    body()
                    st = self.st
                except Dead:
                    pass
            finally:
                conts = fr.cont.pop()
                outs += fr.brk.pop()
            live = conts + ([(st, VOID)] if st is not None else [])
            if not live:
                if not outs:
                    raise Dead()
                self.st, _ = self.join(outs)
                return
            self.st, _ = self.join(live)
            inc()
        if outs:
            self.st, _ = self.join(outs + [(self.st, VOID)])

    # leaves of a structured value: list of (path, value)
    def leaves(self, v, path=()):
        if v.tag == "rec" and v.a[1]:
            out = []
            for k, x in v.a[1]:
                out += self.leaves(x, path + (("f", k),))
            return out
        if v.tag == "mat":
            R, C, en = v.a
            return [(path + (("m", i),), x) for i, x in enumerate(en)]
        return [(path, v)]

    def leaf_get(self, v, path):
        for p in path:
            if p[0] == "f":
                v = rec_get(v, p[1]) if v.tag == "rec" else None
            elif p[0] == "m":
                v = v.a[2][p[1]] if v.tag == "mat" else None
            if v is None:
                return None
        return v

    def leaf_set(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if p[0] == "f":
            return rec_set(v, p[1], self.leaf_set(rec_get(v, p[1]), path[1:], x))
        R, C, en = v.a
        en = list(en)
        en[p[1]] = self.leaf_set(en[p[1]], path[1:], x)
        return mat(R, C, en)

    def symloop(self, cond, body, inc, node, force=True):
        self.nloops += 1
        fr = self.fr()
        base = self.st.clone()
        nloop = self.nloops
        k = sym("k!%d" % nloop)
        mark_nonneg(k)
        kn = atom(k)
        hav = {}   # (cell, path) -> (havoc symbol V, init V)
        saved = (len(self.effects), len(self.ub), len(self.throws[-1]), len(fr.rets), len(self.unsupported))

        def wipe():
            del self.effects[saved[0]:]
            del self.ub[saved[1]:]
            del self.throws[-1][saved[2]:]
            del fr.rets[saved[3]:]

        def run():
            """one abstract iteration from the havoced state; returns dict of results"""
            del self.effects[saved[0]:]
            del self.ub[saved[1]:]
            del self.throws[-1][saved[2]:]
            del fr.rets[saved[3]:]
            del self.unsupported[saved[4]:]
            st = base.clone()
            for (cell, path), (h, init) in hav.items():
                st.store[cell] = self.leaf_set(st.store[cell], path, h)
            st.pc = TRUE
            self.st = st
            c = cond()
            entry = self.st.clone()
            res = {"cond": c, "entry": entry}
            fr.brk.append([])
            fr.cont.append([])
            live = []
            try:
                self.assume(c)
                try:
                    body()
                    live.append((self.st, VOID))
                except Dead:
                    pass
                res["brk"] = None
            except Dead:
                pass
            finally:
                live += fr.cont.pop()
                res["brk"] = fr.brk.pop()
            res["rets"] = fr.rets[saved[3]:]
            if live:
                self.st, _ = self.join(live)
                try:
                    inc()
                    res["end"] = self.st
                except Dead:
                    res["end"] = None
            else:
                res["end"] = None
            return res

        for rnd in range(8):
            res = run()
            new = False
            sts = [x for x in [res["end"]] if x is not None]
            for st in sts:
                for cell, v0 in base.store.items():
                    v1 = st.store.get(cell)
                    ventry = res["entry"].store.get(cell)
                    if v1 is ventry or v1 is None:
                        continue
                    for path, x in self.leaves(v0):
                        if (cell, path) in hav:
                            continue
                        y = self.leaf_get(v1, path)
                        x2 = self.leaf_get(ventry, path)
                        if y is not x2:
                            hs = sym("h!%d.%d" % (nloop, len(hav)))
                            if x.tag in ("num",) or (x.tag == "dec" and _numeric(x)):
                                h = atom(hs)
                            elif x.tag in ("bool",) or (x.tag == "dec" and _boolean(x)):
                                h = bvar(hs)
                            elif x.tag == "seq":
                                h = seq([("all", hs)])
                            elif x.tag == "dec" and _seqlike(x):
                                h = seq([("all", hs)])
                            elif x.id in ELEM:
                                ELEM[hs.id] = ELEM[x.id]
                                h = seq([("all", hs)])
                            else:
                                h = hs
                            hav[(cell, path)] = (h, x, hs)
                            new = True
            # normalise entries
            for kk in list(hav):
                if len(hav[kk]) == 3:
                    h, x, hs = hav[kk]
                    hav[kk] = (h, x)
            if not new:
                break
        else:
            if not force:
                raise NoSummary()
            wipe()
            self.st = base
            return self.havoc_loop(hav, "loop did not stabilise", node)
        hsyms = {}
        for kk, (h, x) in hav.items():
            s = _hsym(h)
            hsyms[s] = kk
        end = res["end"]
        # classify
        closed = {}    # hsym -> closed form at iteration k
        general = []
        pend = dict(hav)
        nexts = {}
        if end is not None:
            for kk, (h, x) in hav.items():
                nexts[kk] = self.leaf_get(end.store[kk[0]], kk[1])
            if any(y is None for y in nexts.values()):
                if not force:
                    raise NoSummary()
                wipe()
                self.st = base
                return self.havoc_loop(hav, "loop changes the shape of what it writes", node)
        cin = end.pc if end is not None else FALSE
        progress = True
        while progress and end is not None:
            progress = False
            for kk, (h, x) in list(pend.items()):
                y = nexts[kk]
                y = subst(y, closed) if closed else y
                y = restrict(y, subst(cin, closed) if closed else cin) if y.tag == "dec" else y
                others = set(hsyms[s] for s in syms_of(y) if s in hsyms) - {kk}
                hs = _hsym(h)
                if h.tag == "num":
                    delta = sub(y, h)
                    if hs not in syms_of(delta) and not (set(s for s in syms_of(delta) if s in hsyms)):
                        c = nconst(delta) if is_num(delta) else None
                        if k not in syms_of(delta):
                            closed[hs] = add(x, mul(delta, kn))
                        else:
                            k2 = sym("k2!%d" % nloop)
                            closed[hs] = add(x, mk_sum(kn, k2, subst(delta, {k: atom(k2)})))
                        del pend[kk]
                        progress = True
                        continue
                elif h.tag == "seq" and y.tag == "t" and y.a[0] == "upd":
                    # element k + c written in iteration k
                    tgt, idx, v = y.a[1:]
                    off = nconst(sub(idx, kn)) if is_num(idx) else None
                    v = _own_element(v, h, hs, idx, x)
                    if (tgt is h or tgt is hs) and off is not None and off >= 0 and v is not None and not any(z in hsyms for z in syms_of(v)):
                        k2 = sym("k2!%d" % nloop)
                        mark_nonneg(k2)
                        xn = seq_size(x)
                        old = lambda j: seq_at(x, j)
                        ps = norm_map(num(off), k2, old(atom(k2))) if off else []
                        ps = ps + [("map", kn, k2, subst(v, {k: atom(k2)}), TRUE)]
                        ps = ps + [("map", sub(sub(xn, num(off)), kn), k2, old(add(atom(k2), add(num(off), kn))), TRUE)]
                        closed[hs] = seq(ps)
                        del pend[kk]
                        progress = True
                        continue
                elif h.tag == "seq":
                    parts = list(y.a) if y.tag == "seq" else None
                    if parts and parts[0] == h.a[0]:
                        tail = parts[1:]
                        deps = set()
                        for p in tail:
                            for z in p:
                                if isinstance(z, V):
                                    deps |= set(s for s in syms_of(z) if s in hsyms)
                        if not deps and len(tail) == 1 and tail[0][0] == "one":
                            k2 = sym("k2!%d" % nloop)
                            mark_nonneg(k2)
                            mp = norm_map(kn, k2, subst(tail[0][2], {k: atom(k2)}), subst(tail[0][1], {k: atom(k2)}))
                            closed[hs] = seq(as_parts_or(x) + mp) if x.tag != "dec" else seq_concat(x, seq(mp))
                            pushes = closed.setdefault("$push", {})
                            pushes[kk] = (x, tail[0])
                            closed.pop("$push")
                            self._push = getattr(self, "_push", {})
                            self._push[(nloop, kk)] = (x, tail[0])
                            del pend[kk]
                            progress = True
                            continue
        general = list(pend)
        gs = set(_hsym(hav[g][0]) for g in general)
        C = lambda v: subst(v, closed) if closed else v
        ck = C(res["cond"])
        gdep = lambda v: bool(gs & syms_of(v))
        # iteration count
        N = None
        if not gdep(ck):
            N = self.count_of(ck, k)
        if N is None:
            if not force:
                raise NoSummary()
            if gdep(ck):
                wipe()
                self.st = base
                return self.havoc_loop(hav, "loop condition depends on unsummarised state", node, keep=res)
            b, (c2,) = close(k, [ck])
            N = atom(mark_nonneg(T("while", b, c2)))
        # conditions of leaving the loop inside the body, at iteration k
        thr = [(C(pc), exc, st) for pc, exc, st in self.throws[-1][saved[2]:]]
        rets = [(St(s.store, C(s.pc)), v) for s, v in res["rets"]]
        brks = [(St(s.store, C(s.pc)), v) for s, v in res["brk"]]
        del self.throws[-1][saved[2]:]
        del fr.rets[saved[3]:]
        effs = [(C(pc), C(e)) for pc, e in self.effects[saved[0]:]]
        ubs = [(C(pc), kd, l) for pc, kd, l in self.ub[saved[1]:]]
        del self.effects[saved[0]:]
        del self.ub[saved[1]:]
        exit_k = FALSE
        for pc, *_ in thr:
            exit_k = b_or(exit_k, pc)
        for s, v in rets + brks:
            exit_k = b_or(exit_k, s.pc)
        exit_k = restrict(exit_k, ck) if exit_k.tag == "dec" else exit_k
        rel = [exit_k] + [e for _, e in effs] + [pc for pc, _ in effs]
        if any(gdep(v) for v in rel):
            # carried state that is not in closed form: keep a canonical fold term
            gmap = self.general_terms(general, hav, nexts, closed, k, N, nloop, C)
            if gmap is None:
                if not force:
                    raise NoSummary()
                wipe()
                self.st = base
                return self.havoc_loop(hav, "loop-carried state not summarised", node, keep=res)
            closed.update(gmap)
            C = lambda v: subst(v, closed)
            exit_k = C(exit_k)
            effs = [(C(pc), C(e)) for pc, e in effs]
            ubs = [(C(pc), kd, l) for pc, kd, l in ubs]
            thr = [(C(pc), exc, st) for pc, exc, st in thr]
            rets = [(St(s.store, C(s.pc)), v) for s, v in rets]
            brks = [(St(s.store, C(s.pc)), v) for s, v in brks]
        elif general:
            gmap = self.general_terms(general, hav, nexts, closed, k, N, nloop, C)
            if gmap is None:
                if not force:
                    raise NoSummary()
                gmap = {}
                for g in general:
                    h, x = hav[g]
                    gmap[_hsym(h)] = unk("loop-carried value @%s" % self.loc(node))
            closed.update(gmap)
            C = lambda v: subst(v, closed)
        exists = mk_exists(N, k, exit_k)
        kst = mk_first(N, k, exit_k) if exit_k is not FALSE else N
        pc0 = base.pc
        for pc, kd, l in ubs:
            e = mk_exists(N, k, pc)
            c = b_and(pc0, e)
            if c is not FALSE:
                self.ub.append((c, kd, l))
        Neff = N if exit_k is FALSE else kst
        for pc, e in effs:
            # effects of complete iterations, and of the leaving one
            cnt = N if exit_k is FALSE else (add(kst, ite(exists, ONE, ZERO)))
            b, (n2, p2, e2) = close(k, [cnt, pc, e])
            self.effects.append((pc0, T("foreach", n2, b, p2, e2)))

        def state_at(kv, store):
            """entry values of iteration kv, overlaid with what the body wrote"""
            m = dict((s, subst(v, {k: kv})) for s, v in closed.items())
            m[k] = kv
            out = dict(base.store)
            for cell, v in store.items():
                if cell in out and (v is not base.store[cell]):
                    out[cell] = subst(v, m)
                elif cell not in out:
                    out[cell] = subst(v, m)
            return out, m
        outs = []
        # normal exit
        pcn = b_and(pc0, b_not(exists))
        if pcn is not FALSE:
            m = dict((s, subst(v, {k: N})) for s, v in closed.items())
            out = dict(base.store)
            for (cell, path), (h, x) in hav.items():
                out[cell] = self.leaf_set(out[cell], path, m[_hsym(h)])
            outs.append((St(out, pcn), VOID))
        if exists is not FALSE:
            for pc, exc, st in thr:
                out, m = state_at(kst, st)
                c = b_and(b_and(pc0, exists), subst(pc, m))
                if c is not FALSE:
                    self.throws[-1].append((c, subst(exc, m), out))
            for s, v in rets:
                out, m = state_at(kst, s.store)
                c = b_and(b_and(pc0, exists), self.at_first(s.pc, m, exit_k, k, kst))
                if c is not FALSE:
                    fr.rets.append((St(out, c), subst(v, m) if v is not VOID else v))
            for s, v in brks:
                out, m = state_at(kst, s.store)
                c = b_and(b_and(pc0, exists), self.at_first(s.pc, m, exit_k, k, kst))
                if c is not FALSE:
                    outs.append((St(out, c), VOID))
        if not outs:
            raise Dead()
        self.st, _ = self.join(outs)

    def at_first(self, pc, m, exit_k, k, kst):
        """condition pc at the first exiting iteration, simplified by exit_k(kst)"""
        c = subst(pc, m)
        care = subst(exit_k, m)
        if c is care:
            return TRUE
        return restrict(c, care) if c.tag == "dec" else c

    def general_terms(self, general, hav, nexts, closed, k, N, nloop, C):
        """fold terms for loop-carried state without a closed form"""
        if not nexts:
            return None
        order = sorted(general, key=lambda g: general.index(g))
        ren = {}
        inits = []
        bodies = []
        for i, g in enumerate(order):
            h, x = hav[g]
            hs = _hsym(h)
            if hs.id in ELEM:
                return None
            ren[hs] = (atom(sym("#g?%d" % i)) if h.tag == "num" else bvar(sym("#g?%d" % i)) if h.tag == "dec" else sym("#g?%d" % i))
            if h.tag == "seq":
                return None
            inits.append(x)
        for g in order:
            b = subst(C(nexts[g]), {hs2: v for hs2, v in ren.items()})
            if has_unk(b):
                return None
            bodies.append(b)
        out = {}
        kk = sym("kg!%d" % nloop)
        bb, bodies2 = close(k, bodies)
        named = dict((sym("#g?%d" % i), sym("#g%d%s" % (i, bb.a[0]))) for i in range(len(order)))
        bodies2 = [subst(b, named) for b in bodies2]
        for i, g in enumerate(order):
            h, x = hav[g]
            t = T("iter", i, atom(k), bb, *(inits + bodies2))
            if h.tag == "num":
                out[_hsym(h)] = atom(t)
            elif h.tag == "dec":
                out[_hsym(h)] = lit(mk_atom("b", t))
            else:
                out[_hsym(h)] = t
        return out

    def count_of(self, ck, k):
        """loop condition (as a function of k) -> number of iterations"""
        if ck is TRUE:
            return None
        if ck.tag != "dec":
            return None
        if k not in syms_of(ck):
            return None
        # single comparison literal, possibly guarded by loop-independent conditions
        at = ATOMS[ck.a[0]]
        if at.kind == "ge" and ck.a[1].tag == "bool" and ck.a[2].tag == "bool":
            v, t = at.a
            pos = ck.a[1] is TRUE
            co = None
            rest = ZERO
            for m_, c_ in v.a:
                if m_ == ((k.id, 1),):
                    co = c_
                else:
                    rest = nadd(rest, VV._num({m_: c_}))
            if co is None or k in syms_of(rest):
                return None
            if pos:   # co*k + rest >= t holds while looping: need co < 0
                if co >= 0:
                    return None
                # k <= (rest - t)/(-co)
                E = nscale(nsub(rest, num(t)), 1 / -co)
                if -co != 1:
                    n = add(app("floor", E), ONE)
                else:
                    n = nadd(E, ONE)
            else:     # co*k + rest < t
                if co <= 0:
                    return None
                E = nscale(nsub(num(t), rest), 1 / co)
                n = E if co == 1 else app("ceil", E)
            return self.clamp0(n)
        # k != E  (iterator loops): eq literal negated: ge(v,t) & !ge(v,t+1) negated
        s = self.neq_form(ck, k)
        if s is not None:
            return self.clamp0(s)
        return None

    def clamp0(self, n):
        if self.known_nonneg(n):
            return n
        return merge(c_gt(n, ZERO, True), n, ZERO)

    def known_nonneg(self, n):
        if n.tag != "num":
            return False
        for m_, c_ in n.a:
            if c_ < 0:
                return False
            for a, e in m_:
                if a not in NONNEG:
                    return False
        return True

    def neq_form(self, ck, k):
        # ck == not (v == t), v = co*k + rest
        for at in [ATOMS[ck.a[0]]]:
            if at.kind != "ge":
                continue
            v, t = at.a
            for tt in (t, t - 1):
                co = None
                rest = ZERO
                for m_, c_ in v.a:
                    if m_ == ((k.id, 1),):
                        co = c_
                    else:
                        rest = nadd(rest, VV._num({m_: c_}))
                if co is None:
                    continue
                E = nscale(nsub(num(tt), rest), 1 / co)
                if b_not(c_eq(atom(k), E, True)) is ck:
                    return E
        return None

    def havoc_loop(self, hav, why, node, keep=None):
        self.unsupported.append((why, self.loc(node)))
        for (cell, path), (h, x) in hav.items():
            self.st.store[cell] = self.leaf_set(self.st.store[cell], path, unk("%s @%s" % (why, self.loc(node))))
        self.effects.append((self.st.pc, T("unknown-effects", unk(why))))
        u = lit(mk_atom("b", unk("loop exit @%s" % self.loc(node))))
        self.throws[-1].append((b_and(self.st.pc, u), T("exc", unk(why)), dict(self.st.store)))
        return

    def havoc_all(self, why, node):
        self.unsupported.append((why, self.loc(node)))
        for c in list(self.st.store):
            self.st.store[c] = unk(why)

    # ---- expressions -----------------------------------------------------------------------
    def rvalue(self, e, tid=None):
        """evaluate to a value (loads glvalues)"""
        v = self.eval(e)
        if e.get("lv") and self.is_ptr(v):
            return self.load(v, e)
        return v

    def eval(self, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return self.unk("expression %s" % e["k"], e)
        v = m(e)
        if not e.get("lv") and v is not None and v.tag == "ptr" and self.t(e["t"])["k"] in ("int", "float", "bool", "enum"):
            return self.load(v, e)
        return v

    def e_Temp(self, e):
        v = self.eval(e["e"])
        if e["e"].get("lv") and self.is_ptr(v):
            return v
        c = self.alloc(v, "tmp")
        if self.mode.lifetimes:
            if e.get("ext"):
                self.fr().locals.append(c)
            elif self.temps:
                self.temps[-1].append(c)
        return ptr(c)

    def e_Int(self, e):
        return num(int(e["v"]))

    def e_Float(self, e):
        return fconst(e)

    def e_ConstV(self, e):
        if "cv" in e:
            return self.cv(e)
        return fconst(e)

    def cv(self, e):
        d = self.t(e["t"])
        if d["k"] == "bool":
            return TRUE if int(e["cv"]) else FALSE
        return num(int(e["cv"]))

    def e_Bool(self, e):
        return TRUE if e["v"] else FALSE

    def e_Str(self, e):
        return strc(e.get("v", "?"))

    def e_Null(self, e):
        return NULL

    def e_This(self, e):
        return self.fr().this

    def e_ValueInit(self, e):
        return self.default_value(self.fr().T, e["t"], True)

    def e_Ref(self, e):
        dk = e["dk"]
        fr = self.fr()
        if dk == "enum":
            return num(int(e["v"]))
        if dk == "fn":
            return fnref(e["f"])
        if dk in ("var", "bind"):
            x = fr.env.get(e["id"])
            if x is None:
                return self.unk("variable %s" % e["name"], e)
            return ptr(x[1]) if x[0] == "cell" else x[1]
        if dk == "gvar":
            return self.global_ptr(e)
        return self.unk("ref %s" % e["name"], e)

    def global_ptr(self, e):
        g = self.prog.globals.get(e["g"])
        cell = "global:" + e["g"]
        if g is not None and g.get("static_local"):
            cell = "static:" + e["g"]
        if cell not in self.st.store:
            if "cv" in e or "fv" in e:
                self.st.store[cell] = self.cv(e) if "cv" in e else fconst(e)
                return ptr(cell)
            hook = self.models.global_hook(self, e, g)
            if hook is not None:
                self.st.store[cell] = hook
                return ptr(cell)
            if g is None:
                self.st.store[cell] = T("global", strc(e["g"]))
                return ptr(cell)
            d = g["_T"][g["t"]]
            if self.isref(d):
                self.frames.append(Frame({"_T": g["_T"], "file": g["file"], "line": g["line"], "q": e["g"]}, None, 0))
                try:
                    p = self.eval(g["init"]) if "init" in g else self.unk("global reference", e)
                finally:
                    self.frames.pop()
                return p
            if (d.get("const") or g.get("constexpr")) and "init" in g:
                self.frames.append(Frame({"_T": g["_T"], "file": g["file"], "line": g["line"], "q": e["g"]}, None, 0))
                pc = self.st.pc
                try:
                    v = self.rvalue(g["init"], g["t"])
                finally:
                    self.frames.pop()
                self.st.store[cell] = v
            else:
                if g.get("repo") and not d.get("const"):
                    self.hidden[cell] = e["g"]
                self.st.store[cell] = self.symval(g["_T"], g["t"], T("global", strc(e["g"])))
        return ptr(cell)

    def e_L2R(self, e):
        v = self.eval(e["e"])
        if self.is_ptr(v):
            return self.load(v, e)
        return v

    def e_Member(self, e):
        b = self.eval(e["e"])
        if not self.is_ptr(b):
            if b.tag == "unk":
                return b
            # prvalue record
            v = self.step(b, ("f", e["name"]), e)
            return v
        fieldd = None
        r = self.prog.records.get(e.get("cls"))
        p = self.extend(b, ("f", e["name"]))
        if r and r.get("repo"):
            for f in r["fields"]:
                if f["name"] == e["name"]:
                    fieldd = r["_T"][f["t"]]
        if fieldd is not None and self.isref(fieldd):
            return self.load(p, e)   # reference member: its value is the pointer
        if e.get("mut"):
            self.hidden_member(p, e)
        return p

    def hidden_member(self, p, e):
        self.hidden.setdefault("mutable:" + e["name"], self.loc(e))

    def e_Un(self, e):
        op = e["op"]
        if op == "*":
            v = self.rvalue(e["e"])
            return v
        if op == "&":
            return self.eval(e["e"])
        if op == "!":
            return b_not(self.cond(e["e"]))
        if op == "-":
            v = self.rvalue(e["e"])
            r = neg(v)
            self.check_overflow(r, e)
            return r
        if op == "+":
            return self.rvalue(e["e"])
        if op in ("++", "--"):
            p = self.eval(e["e"])
            old = self.load(p, e)
            new = add(old, ONE if op == "++" else num(-1))
            new = self.wrap_to(new, e["t"], e)
            self.store(p, new, e)
            return old if e["post"] else p
        if op == "~":
            return app("bitnot", self.rvalue(e["e"]))
        if op == "__extension__":
            return self.eval(e["e"])
        return self.unk("unary %s" % op, e)

    def check_overflow(self, v, e, tid=None):
        if not self.mode.overflow:
            return
        d = self.t(tid if tid is not None else e["t"])
        if d["k"] == "int" and d["sg"] and not has_unk(v):
            w = d["w"]
            c = b_or(c_gt(v, num(2 ** (w - 1) - 1), True), c_lt(v, num(-2 ** (w - 1)), True))
            if c is not FALSE:
                self.ubev(c, "signed overflow", e)

    def wrap_to(self, v, tid, e):
        d = self.t(tid)
        if d["k"] == "int" and d["sg"]:
            self.check_overflow(v, e, tid)
        return v

    def e_Bin(self, e):
        op = e["op"]
        if op == "&&":
            a = self.cond(e["a"])
            return self.tobool(self.branch(a, lambda: self.cond(e["b"]), lambda: FALSE))
        if op == "||":
            a = self.cond(e["a"])
            return self.tobool(self.branch(a, lambda: TRUE, lambda: self.cond(e["b"])))
        if op == ",":
            self.eval(e["a"])
            return self.eval(e["b"])
        a = self.rvalue(e["a"])
        b = self.rvalue(e["b"])
        return self.binop(op, a, b, e, self.t(e["a"]["t"]), self.t(e["t"]))

    def binop(self, op, a, b, e, da, dr):
        isint = da["k"] in ("int", "enum", "bool")
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if da["k"] == "bool" and op in ("==", "!="):
                r = b_iff(self.tobool(a), self.tobool(b))
                return r if op == "==" else b_not(r)
            if op == "==":
                return self.ptr_eq(a, b, isint)
            if op == "!=":
                return b_not(self.ptr_eq(a, b, isint))
            f = {"<": c_lt, ">": c_gt, "<=": c_le, ">=": c_ge}[op]
            return f(lift(tonum, a), lift(tonum, b), isint)
        if da["k"] == "ptr" or dr["k"] == "ptr":
            it = lambda x: x.tag == "rec" and x.a[0] == "iter"
            if op in ("+", "-") and it(a) and b.tag == "num":
                j = (add if op == "+" else sub)(rec_get(a, "i"), b)
                return self.models.mkiter(rec_get(a, "c"), j)
            if op == "+" and it(b) and a.tag == "num":
                return self.models.mkiter(rec_get(b, "c"), add(rec_get(b, "i"), a))
            if op == "-" and it(a) and it(b) and rec_get(a, "c") is rec_get(b, "c"):
                return sub(rec_get(a, "i"), rec_get(b, "i"))
            return self.unk("pointer arithmetic", e)
        if op in ("+", "-", "*"):
            r = {"+": add, "-": sub, "*": mul}[op](a, b)
            if isint:
                self.check_overflow(r, e)
            return r
        if op == "/":
            if isint:
                return self.idiv(a, b)
            return div(a, b)
        if op == "%":
            return self.imod(a, b)
        if op in ("&", "|", "^") and da["k"] == "bool":
            x, y = self.tobool(a), self.tobool(b)
            return {"&": b_and, "|": b_or, "^": b_xor}[op](x, y)
        if op == "<<":
            cb = nconst(b)
            if cb is not None:
                return mul(a, num(2 ** int(cb)))
        if op in ("&", "|", "^", ">>", "<<"):
            return app("bit" + op, a, b)
        return self.unk("binary %s" % op, e)

    def ptr_eq(self, a, b, isint):
        def leaf(x, y):
            for u, w in ((x, y), (y, x)):
                if u is NULL:
                    if w.tag == "ptr":
                        return FALSE
                    if w is NULL:
                        return TRUE
                    if w.tag == "rec" and w.a[0] == "box":
                        return rec_get(w, "null")
            return c_eq(x, y, isint)
        return lift(leaf, a, b)

    def idiv(self, a, b):
        def leaf(x, y):
            x, y = tonum(x), tonum(y)
            cx, cy = nconst(x), nconst(y)
            if cx is not None and cy not in (None, 0):
                q = abs(cx) // abs(cy)
                return num(q if (cx < 0) == (cy < 0) else -q)
            if cy == 1:
                return x
            return atom(T("idiv", x, y))
        return lift(leaf, a, b)

    def imod(self, a, b):
        def leaf(x, y):
            x, y = tonum(x), tonum(y)
            cx, cy = nconst(x), nconst(y)
            if cx is not None and cy not in (None, 0):
                q = abs(cx) // abs(cy)
                q = q if (cx < 0) == (cy < 0) else -q
                return num(cx - q * cy)
            if cy == 1:
                return ZERO
            return nsub(x, nmul(y, atom(T("idiv", x, y))))
        return lift(leaf, a, b)

    def e_Asg(self, e):
        op = e["op"]
        if op == "=":
            b = self.rvalue(e["b"])
            p = self.eval(e["a"])
            self.store(p, b, e)
            return p
        p = self.eval(e["a"])
        b = self.rvalue(e["b"])
        old = self.load(p, e)
        da = self.t(e["a"]["t"])
        dc = self.t(e["ct"]) if "ct" in e else da
        if da["k"] == "bool":
            r = {"&=": b_and, "|=": b_or, "^=": b_xor}.get(op)
            if r:
                self.store(p, r(self.tobool(old), self.tobool(b)), e)
                return p
        r = self.binop(op[:-1], old, b, e, dc, dc)
        if dc["k"] == "float" and da["k"] == "int":
            r = self.f2i(r, da)
        self.store(p, r, e)
        return p

    def e_Cond(self, e):
        c = self.cond(e["c"])
        lv = e.get("lv")

        def side(x):
            v = self.eval(x)
            if not lv and x.get("lv") and self.is_ptr(v):
                v = self.load(v, x)
            return v
        return self.branch(c, lambda: side(e["a"]), lambda: side(e["b"]))

    def f2i(self, v, d):
        if self.mode.overflow and not has_unk(v):
            w = d["w"]
            lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if d["sg"] else (0, 2 ** w - 1)
            x = lift(tonum, v)
            self.ubev(b_or(c_ge(x, num(hi + 1)), c_le(x, num(lo - 1))), "conversion out of range", None)

        def leaf(x):
            c = nconst(tonum(x))
            if c is not None:
                return num(int(c))
            if is_integral(x):
                return tonum(x)
            return atom(T("f2i", tonum(x), d["w"], d["sg"]))
        return lift(leaf, v)

    def remainder_bound(self, x):
        """bounds of y - k*idiv(y, k) for a constant k"""
        for m, c in x.a:
            if len(m) == 1 and m[0][1] == 1:
                a = BYID[m[0][0]]
                if a.tag == "t" and a.a[0] == "idiv":
                    k = nconst(tonum(a.a[2]))
                    if k and c == -k and nadd(x, nscale(atom(a), k)) is tonum(a.a[1]):
                        hi = int(abs(k)) - 1
                        return (0 if self.known_nonneg(tonum(a.a[1])) else -hi, hi)
        return None

    def int_cast(self, v, src, dst, e):
        """integral conversion; identity when the value range provably fits"""
        ws, ss = src.get("w", 32), src.get("sg", True)
        wd, sd = dst["w"], dst["sg"]
        if src["k"] == "bool":
            return lift(tonum, v)
        if src["k"] == "enum":
            return v

        def leaf(x):
            x = tonum(x)
            c = nconst(x)
            if c is not None:
                lo, hi = (-2 ** (wd - 1), 2 ** (wd - 1) - 1) if sd else (0, 2 ** wd - 1)
                if lo <= c <= hi:
                    return x
                m = int(c) % (2 ** wd)
                if sd and m >= 2 ** (wd - 1):
                    m -= 2 ** wd
                return num(m)
            if wd > ws and (sd or not ss):
                return x
            b = self.remainder_bound(x)
            if b is not None:
                lo, hi = (-2 ** (wd - 1), 2 ** (wd - 1) - 1) if sd else (0, 2 ** wd - 1)
                if lo <= b[0] and b[1] <= hi:
                    return x
            if wd == ws and sd == ss:
                return x
            if self.known_nonneg(x) and wd >= 32:
                # sizes and indices: assumed to fit in memory-sized integers
                return x if wd >= ws or _sizelike(x) else atom(T("wrap", x, wd, sd))
            if wd >= ws and not sd and ss:
                return x if _sizelike(x) else atom(T("wrap", x, wd, sd))
            if wd == ws and sd and not ss:
                return x
            return atom(T("wrap", x, wd, sd))
        return lift(leaf, v)

    def e_Cast(self, e):
        ck = e["ck"]
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "Dependent", "BuiltinFnToFnPtr"):
            v = self.eval(e["e"])
            if ck == "NoOp" and not e.get("lv") and e["e"].get("lv") and self.is_ptr(v) and self.t(e["t"])["k"] != "ptr":
                return self.load(v, e)
            return v
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"):
            v = self.eval(e["e"])
            steps = []
            for tid in e.get("path", ()):
                d = self.t(tid)
                r = self.prog.records.get(d.get("r"))
                if not (r and r.get("repo")):
                    if self.models.std_base_noop(d):
                        break
                    steps.append(("f", "$base"))
                    break
            if not steps:
                return v
            if self.is_ptr(v):
                # only when the derived object is a repo record
                return self.extend(v, *steps) if self.src_is_repo(e["e"]) else v
            return self.step(v, steps[0], e) if self.src_is_repo(e["e"]) else v
        if ck == "BaseToDerived":
            return self.eval(e["e"])
        if ck in ("ArrayToPointerDecay", "FunctionToPointerDecay"):
            return self.eval(e["e"])
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            self.eval(e["e"])
            return VOID
        v = self.rvalue(e["e"])
        src, dst = self.t(e["e"]["t"]), self.t(e["t"])
        if ck == "IntegralCast":
            if dst["k"] == "enum":
                return v
            return self.int_cast(v, src, dst, e)
        if ck == "IntegralToBoolean" or ck == "PointerToBoolean" or ck == "MemberPointerToBoolean":
            return self.tobool(v, e)
        if ck == "FloatingToBoolean":
            return b_not(c_eq(lift(tonum, v), ZERO))
        if ck == "IntegralToFloating":
            self.i2f.append((self.st.pc, v, self.loc(e)))
            if dst.get("w", 64) < 64 and not (is_num(v) and nconst(v) is not None):
                return app("f32", lift(tonum, v))
            return lift(tonum, v)
        if ck == "FloatingToIntegral":
            return self.f2i(v, dst)
        if ck == "FloatingCast":
            if dst["w"] < src["w"]:
                c = nconst(v) if is_num(v) else None
                if c is not None:
                    import struct
                    return num(F(struct.unpack("f", struct.pack("f", float(c)))[0]))
                return app("f32", v)
            return v
        if ck in ("BitCast", "LValueBitCast"):
            return v
        return self.unk("cast %s" % ck, e)

    def src_is_repo(self, e):
        d = self.t(e["t"])
        while d["k"] in ("lref", "rref", "ptr"):
            d = self.t(d["p"])
        r = self.prog.records.get(d.get("r"))
        return bool(r and r.get("repo"))

    def e_Throw(self, e):
        if e.get("e"):
            d = self.t(e["e"]["t"])
            v = self.rvalue(e["e"])
            exc = T("exc", strc(d.get("r", d["s"])), v)
        else:
            exc = T("exc", strc("rethrow"))
        self.throw(exc)
        raise Dead()

    def e_StmtExpr(self, e):
        body = e["body"]
        v = VOID
        mark = len(self.fr().locals)
        for i, s in enumerate(body["c"]):
            if i == len(body["c"]) - 1 and s["k"] in EXPR_KINDS:
                v = self.eval(s)
                if s.get("lv") and not e.get("lv") and self.is_ptr(v):
                    v = self.load(v, s)
            else:
                self.exec(s)
        if self.mode.lifetimes:
            self.end_lifetimes(self.fr().locals[mark:])
        return v

    def e_Lambda(self, e):
        caps = {}
        fr = self.fr()
        for c in e["caps"]:
            if c.get("this"):
                caps["this"] = fr.this
                continue
            if c["ref"]:
                x = self.eval(c["init"]) if "init" in c else None
                if x is None:
                    x = fr.env[c["id"]]
                    x = ptr(x[1]) if x[0] == "cell" else x[1]
                caps["r%d" % c["id"]] = x
            else:
                caps["c%d" % c["id"]] = self.rvalue(c["init"])
        return clo(e["ops"], caps, e["cls"])

    def call_clo(self, c, args, node, key=None):
        """call closure value c"""
        def leaf(x):
            if x.tag == "clo":
                ops = x.a[0]
                k = key if key in ops else (ops[0] if len(ops) == 1 else key)
                f = self.prog.functions.get(k)
                if f is None:
                    f = self.pick_op(ops, args)
                if f is None:
                    return self.unk("lambda body", node)
                caps = dict(x.a[1])
                fr = Frame(f, caps.get("this"), len(self.frames))
                for n, v in caps.items():
                    if n == "this":
                        continue
                    if n[0] == "r":
                        fr.env[int(n[1:])] = ("ref", v)
                    else:
                        fr.env[int(n[1:])] = ("cell", self.alloc(v, "cap"))
                if len(self.frames) > 70:
                    return self.unk("recursion depth", node)
                self.ncalls += 1
                self.visited.add(f["key"])
                self.bind_params(fr, f, args, node)
                return self.run_body(fr, f["body"], False)
            return None
        if c.tag == "clo":
            return leaf(c)
        if c.tag == "fn":
            return self.call_key(c.a, None, args, node)
        if c.tag == "dec":
            at = dec(c.a[0], TRUE, FALSE)
            return self.branch(at, lambda: self.call_clo(c.a[1], args, node, key), lambda: self.call_clo(c.a[2], args, node, key))
        return self.models.call_opaque(self, c, args, node)

    def pick_op(self, ops, args):
        for k in ops:
            f = self.prog.functions.get(k)
            if f is not None and len(f["params"]) == len(args):
                return f
        return None

    def e_InitList(self, e):
        d = self.t(e["t"])
        if d["k"] == "rec":
            r = self.prog.records.get(d["r"])
            m = self.models.init_list(self, e, d)
            if m is not None:
                return m
            if r and r.get("repo"):
                fields = {}
                items = list(e["a"])
                T_ = r["_T"]
                for bi, b in enumerate(r.get("bases", ())):
                    if items:
                        v = self.rvalue(items.pop(0))
                        br = self.prog.records.get(b["r"])
                        if br and br.get("repo") and not br.get("lambda") and v.tag == "rec":
                            fields.update(dict(v.a[1]))
                        elif v.tag == "clo":
                            fields["$b%d" % bi] = v
                        else:
                            fields["$base"] = v
                for f in r["fields"]:
                    fd = T_[f["t"]]
                    if items:
                        it = items.pop(0)
                        if self.isref(fd):
                            fields[f["name"]] = self.eval(it)
                        else:
                            fields[f["name"]] = self.rvalue(it)
                    else:
                        fields[f["name"]] = self.default_value(T_, f["t"], True)
                return rec(d["r"], fields)
            return self.unk("init list of %s" % d["s"], e)
        if d["k"] == "array":
            vals = [self.rvalue(a) for a in e["a"]]
            while len(vals) < d["n"]:
                vals.append(self.rvalue(e["filler"]) if "filler" in e else self.default_value(self.fr().T, d["p"], True))
            return seq([("one", TRUE, v) for v in vals])
        if len(e["a"]) == 1:
            return self.rvalue(e["a"][0])
        if not e["a"]:
            return self.default_value(self.fr().T, e["t"], True)
        return self.unk("init list", e)

    def e_StdInitList(self, e):
        return self.rvalue(e["e"])

    def e_Index(self, e):
        a = self.eval(e["a"])
        i = self.rvalue(e["b"])
        if self.is_ptr(a):
            # pointer to the array object (decayed)
            return self.extend(a, ("i", i)) if is_num(i) else self.unk("index", e)
        if a.tag in ("seq", "mat", "str"):
            return ptr(self.alloc(seq_at(a, i), "el"))
        return self.unk("index", e)

    def e_New(self, e):
        v = self.rvalue(e["e"]) if "e" in e else self.default_value(self.fr().T, e["pt"])
        return ptr(self.alloc(v, "heap"))

    def e_Delete(self, e):
        self.eval(e["e"])
        return VOID

    def e_InheritedCtor(self, e):
        return self.unk("inherited constructor", e)

    def e_Unsupported(self, e):
        return self.unk("expression class %s" % e.get("cls"), e)

    # ---- calls -------------------------------------------------------------------------------
    def e_Call(self, e):
        if "calleeE" in e:
            c = self.rvalue(e["calleeE"])
            args = [self.eval(a) for a in e["a"]]
            return self.call_clo(c, args, e)
        q = e.get("q", "")
        if ("cv" in e or "fv" in e) and not e.get("repo"):
            return self.cv(e) if "cv" in e else fconst(e)
        if e.get("repo") and not q.startswith("__builtin_"):
            args = [self.eval(a) for a in e["a"]]
            return self.call_key(e["f"], None, args, e)
        return self.models.call(self, e)

    def e_MCall(self, e):
        if ("cv" in e or "fv" in e) and not e.get("repo"):
            return self.cv(e) if "cv" in e else fconst(e)
        if "obj" not in e:
            return self.unk("member pointer call", e)
        obj = self.eval(e["obj"])
        n = e.get("n", "")
        if n == "operator()" and not e.get("mstatic"):
            # closures (repo lambdas or std::function)
            v = self.load(obj, e) if self.is_ptr(obj) else obj
            if _callable(v):
                args = [self.eval(a) for a in e["a"]]
                return self.call_clo(v, args, e, e.get("f"))
        if e.get("repo"):
            args = [self.eval(a) for a in e["a"]]
            this = obj
            if not self.is_ptr(this):
                if this.tag == "unk":
                    r = self.contracts.get(e.get("q"))
                    if r is None:
                        return self.unk("call on unknown object", e)
                this = ptr(self.alloc(this, "obj"))
            if n.startswith("~"):
                return VOID
            return self.call_key(e["f"], this, args, e)
        return self.models.mcall(self, e, obj)

    def e_Construct(self, e):
        d = self.t(e["t"])
        r = self.prog.records.get(d.get("r"))
        kind = e["ctor"]
        if d["k"] == "array":
            return self.default_value(self.fr().T, e["t"])
        if r and r.get("repo"):
            args = [self.eval(a) for a in e["a"]]
            if r.get("lambda"):
                return self.load(args[0], e) if self.is_ptr(args[0]) else args[0]
            f = self.prog.functions.get(e["f"])
            if f is not None and "inits" in f and not (f.get("defaulted") and kind in ("copy", "move")):
                return self.construct(f, args, e)
            if kind in ("copy", "move"):
                a = args[0]
                if self.is_ptr(a):
                    v = self.move_from(a, e) if kind == "move" else self.load(a, e)
                else:
                    v = a
                if v.tag == "rec" and v.a[0] != d["r"] and not self.models.is_group(v) and v.a[0] in self.prog.records:
                    names = set(self.layout(d["r"]))
                    v = rec(d["r"], {k: x for k, x in v.a[1] if k in names})
                return v
            if kind == "default":
                return self.default_construct(d["r"], e.get("list", False), e)
            c = self.contracts.get(e.get("q"))
            if c:
                x = c(self, e, None, args)
                if x is not NotImplemented:
                    return x
            return self.unk("constructor %s" % e.get("f"), e)
        return self.models.construct(self, e, d)


EXPR_KINDS = {"Temp", "Int", "Float", "Bool", "Str", "Null", "This", "Ref", "Member", "MCall", "Call", "Construct",
              "InitList", "StdInitList", "ValueInit", "Un", "Asg", "Bin", "Cond", "Cast", "L2R", "Lambda", "StmtExpr",
              "Index", "New", "Delete", "Throw", "ConstV", "Unsupported", "InheritedCtor"}


def as_parts_or(x):
    return as_parts(x)


def _callable(v):
    if v.tag in ("clo", "fn"):
        return True
    if v.tag == "dec":
        return _callable(v.a[1]) and _callable(v.a[2])
    if v.tag == "t" and v.a[0] == "callback":
        return True
    return False


def _hsym(h):
    if h.tag == "num":
        return BYID[h.a[0][0][0][0]]
    if h.tag == "seq":
        return h.a[0][1]
    if h.tag == "dec":
        return ATOMS[h.a[0]].a[0]
    return h


def _numeric(x):
    if x.tag == "dec":
        return _numeric(x.a[1]) or _numeric(x.a[2])
    return x.tag == "num"


def _boolean(x):
    if x.tag == "dec":
        return _boolean(x.a[1]) and _boolean(x.a[2])
    return x.tag == "bool"


def _own_element(v, h, hs, idx, x):
    """the written value with the element's previous content read from the initial sequence; None if it reads others"""
    for form in (h, hs):
        old = seq_at(form, idx)
        new = seq_at(x, idx)
        if old is v:
            return new
        m = {}
        _pair_up(old, new, m)
        if m:
            v = subst(v, m)
    return None if hs in syms_of(v) else v


def _pair_up(a, b, m):
    if a is b:
        return
    if a.tag == "rec" and b.tag == "rec" and a.a[0] == b.a[0]:
        for (_, x), (_, y) in zip(a.a[1], b.a[1]):
            _pair_up(x, y, m)
    elif a.tag == "mat" and b.tag == "mat" and a.a[:2] == b.a[:2]:
        for x, y in zip(a.a[2], b.a[2]):
            _pair_up(x, y, m)
    elif a.tag == "num" and len(a.a) == 1 and a.a[0][1] == 1 and len(a.a[0][0]) == 1 and a.a[0][0][0][1] == 1:
        m[BYID[a.a[0][0][0][0]]] = b
    elif a.tag in ("t", "sym"):
        m[a] = b


def _seqlike(x):
    if x.tag == "dec":
        return _seqlike(x.a[1]) and _seqlike(x.a[2])
    return x.tag == "seq" or x.id in ELEM


def _sizelike(x):
    """sums of container sizes, loop counters and constants"""
    for m, c in x.a:
        for a, e in m:
            if a not in NONNEG:
                return False
    return True


def fconst(e):
    src = e.get("src")
    fv = e.get("fv")
    if src:
        t = src.rstrip("fFlL").replace("'", "")
        try:
            return num(F(t))
        except (ValueError, ZeroDivisionError):
            pass
    if fv is None:
        return unk("float constant")
    if fv in ("nan", "inf", "-inf"):
        return atom(T("const:" + fv))
    return num(F(float.fromhex(fv)))
