"""The clients of the ReSim servers: what is asked of the server, in which order, with which token."""
from ..values import *
from ..spec import *
from ..interp import seq_push
from .. import interp as IN
from .. import models as M
from .frames import P

WORLD = ptr("world")
CREATED, UNAUTHORIZED = num(201), num(401)
AUTH = "resim::auth::AuthClientInterface::"


def status(k):
    return sym("status%d" % k)


# ---------------------------------------------------------------- the outside world: requests so far, and the refreshes of the token
def world(R, texts):
    R.texts = texts
    R.I.st.store["world"] = rec("world", {"n": ZERO, "asked": seq([]), "refreshed": ZERO})


def jwt(n):
    return lift(lambda k: T("jwt", k), n)


def part(R, y, k):
    """field k of the request y, which may depend on earlier answers"""
    return lift(lambda x: rec_get(x, k) if x.tag == "rec" and rec_get(x, k) is not None else UNREQ, y)


UNREQ = sym("no-request")


def contracts(texts, status):
    def transport(I, node, this, args):
        q = I.load(args[0], node) if I.is_ptr(args[0]) else args[0]
        w = I.load(WORLD)
        n = rec_get(w, "n")
        I.store(WORLD, rec("world", {"n": add(n, ONE), "asked": seq_push(rec_get(w, "asked"), q), "refreshed": rec_get(w, "refreshed")}))

        def answer(k):
            c = int(nconst(k))
            r = I.symrec("cpr::Response", sym("answer%d" % c))
            return rec_set(rec_set(r, "status_code", status(c)), "text", texts(c))
        return lift(answer, n)

    def get_jwt(I, node, this, args):
        return jwt(rec_get(I.load(WORLD), "refreshed"))

    def refresh(I, node, this, args):
        w = I.load(WORLD)
        I.store(WORLD, rec_set(w, "refreshed", add(rec_get(w, "refreshed"), ONE)))
        return VOID
    return {"cpr::transport": transport, AUTH + "get_jwt": get_jwt, AUTH + "refresh": refresh}


def run(ctx):
    quoted = lambda k: strc('"id-%d"\n' % k)

    def request(R, url, token, body=None):
        h = [] if body is None else [("one", TRUE, rec("pair", {"first": strc("Content-Type"), "second": strc("application/octet-stream")}))]
        return rec("cpr::Request", {"method": strc("POST"), "url": url, "bearer": token, "body": strc("") if body is None else body, "header": seq(h)})

    def expect(R, base, bodies, status):
        """what has to happen: (value, ok) as decision values over the answers"""
        cat = lambda *xs: __import__("functools").reduce(M.strcat, xs)

        def call(st, mk):
            """one request, repeated once with a new token when the token is refused"""
            n, asked, fresh = st
            a = (n + 1, asked + [mk(fresh)], fresh)
            b = (n + 2, asked + [mk(fresh), mk(fresh + 1)], fresh + 1)
            return [(b_not(c_eq(status(n), UNAUTHORIZED, True)), a, n), (c_eq(status(n), UNAUTHORIZED, True), b, n + 1)]

        def send(st, sid, k, body):
            """-> [(condition, state, session, number, good)]"""
            out = []
            if sid is None:
                for c, s, last in call(st, lambda t: request(R, cat(base, strc("/view/sessions")), T("jwt", num(t)))):
                    made = c_eq(status(last), CREATED, True)
                    out.append((b_and(c, b_not(made)), s, None, k, False))
                    for c2, *rest in send(s, strc("id-%d" % last), k, body):
                        out.append((b_all([c, made, c2]), *rest))
                return out
            url = cat(base, strc("/view/sessions/"), sid, strc("/updates/%d" % k))
            for c, s, last in call(st, lambda t: request(R, url, T("jwt", num(t)), body)):
                made = c_eq(status(last), CREATED, True)
                out.append((b_and(c, made), s, sid, k + 1, True))
                out.append((b_and(c, b_not(made)), s, sid, k + 1, False))
            return out
        runs = [(TRUE, (0, [], 0), None, 0, True)]
        for b in bodies:
            runs = [(b_and(c, c2), s2, sid2, k2, g2) for c, s, sid, k, g in runs for c2, s2, sid2, k2, g2 in send(s, sid, k, b)]
        return runs

    def f(name, q, nup, fixed=None):
        status = fixed or globals()["status"]
        C = contracts(quoted, status)

        def args(R, fn):
            world(R, quoted)
            mk = ctx.fn(P + "v_primitive_frame")
            one = lambda i: rec("resim::visualization::ViewUpdate", {"primitives": seq([("one", TRUE, R.val(R.call(
                P + "v_primitive_frame", *[R.param(mk, j, "u%d_%d" % (i, j)) for j in range(2)], R.call(P + "v_no_name"), *[R.param(mk, j, "u%d_%d" % (i, j)) for j in (3, 4)])))])})
            return [R.param(fn, i) for i in range(2)] + [R.ref(one(i)) for i in range(2, len(fn["params"]))]

        def spec(R, url, auth, *ups):
            base = R.val(url)
            bodies = [R.val(R.call(P + "vc_body", u)) for u in ups]
            R.I.throws[0][:] = []
            R.I.st.pc = TRUE
            ex = expect(R, base, bodies, status)
            care = b_not(c_eq(base, strc("")))
            given = b_not(rec_get(R.val(auth), "null"))

            def post(R, r):
                w = R.I.load(WORLD)
                ok = R.val(R.call(P + "st_ok", R.ref(r)))
                out = []
                for i, (c, (n, asked, fresh), sid, k, good) in enumerate(ex):
                    if c is FALSE:
                        continue
                    L = "answers %d: " % i
                    out += [(L + "requests made", rec_get(w, "n"), num(n), c), 
                            (L + "token renewed", rec_get(w, "refreshed"), num(fresh), c), (L + "status", ok, TRUE if good else FALSE, c)]
                    for j, x in enumerate(asked):
                        y = IN.seq_at(rec_get(w, "asked"), num(j))
                        for k_, v in x.a[1]:
                            out.append((L + "%s of request %d" % (k_, j), part(R, y, k_), v, c))
                return out
            return b_not(care), post, given
        ctx.function(name, P + q, spec, contracts=C, args=args)
    f("the first update", "vc_one", 1)
    f("two updates", "vc_two", 2)
    if ctx.tier != "quick":
        f("three updates", "vc_three", 3)
    f("five updates, all accepted", "vc_five", 5, lambda k: CREATED)


# ---------------------------------------------------------------- tokens: server, file and clock
TOKENS = "resim::auth::DeviceCodeClient"
EXPIRES, INTERVAL = 20, 5


def token_world(R, has):
    R.I.st.store["world"] = rec("world", {"n": ZERO, "asked": seq([]), "time": ZERO, "has": TRUE if has else FALSE,
                                          "text": sym("stored"), "dir": TRUE if has else FALSE})


def token_contracts(R_path, polls, expires=EXPIRES):
    """the first answer of each log-in describes it; the following ones are those listed"""
    W = lambda I: I.load(WORLD)
    put = lambda I, **kw: [I.store(WORLD, rec_set(W(I), k, v)) for k, v in kw.items()]
    arg = lambda I, e, i: M.val(I, I.eval(e["a"][i]), e)
    mine = lambda I, e, i: arg(I, e, i) is R_path(I)
    per = len(polls) + 1

    def transport(I, node, this, args):
        q = I.load(args[0], node) if I.is_ptr(args[0]) else args[0]
        n = rec_get(W(I), "n")
        put(I, n=add(n, ONE), asked=seq_push(rec_get(W(I), "asked"), q))

        def answer(k):
            c = int(nconst(k))
            r = I.symrec("cpr::Response", sym("answer%d" % c))
            return rec_set(rec_set(r, "status_code", status(c)), "text", T("text", num(c)))
        return lift(answer, n)

    def parse(I, e, obj, _):
        text, p = arg(I, e, 0), M.loc_of(I, I.eval(e["a"][1]))
        m = I.load(p, e)

        def one(x):
            if x.tag != "t" or x.a[0] != "text":
                return I.unk("parsed text", e)
            k = int(nconst(x.a[1]))
            v = M.pb_sym(I, m.a[0][3:], x)
            if k % per == 0:
                for n_, c in (("expires_in", expires), ("interval", INTERVAL)):
                    if rec_get(v, n_) is None:
                        return I.unk("kind of answer", e)
                    v = rec_set(v, n_, num(c))
                return v
            if rec_get(v, "has_error") is None:
                return I.unk("kind of answer", e)
            v = rec_set(v, "has_error", FALSE if polls[k % per - 1] else TRUE)
            return rec_set(v, "error", strc("") if polls[k % per - 1] else strc("authorization_pending"))
        if not M.is_msg(m):
            return NotImplemented
        I.store(p, lift(one, text), e)
        return lift(lambda x: rec("pbstatus", {"ok": bvar(T("parses", x))}), text)

    def now(I, e, obj, _):
        return rec_get(W(I), "time")

    def sleep(I, e, obj, _):
        d = IN_type(I, e["a"][0])
        k, fl, _r = M.ratio_of(I, I.fr().T, d)
        put(I, time=add(rec_get(W(I), "time"), mul(arg(I, e, 0), num(k * 10 ** 9))))
        return VOID

    def sleep_until(I, e, obj, _):
        put(I, time=arg(I, e, 0))
        return VOID

    def IN_type(I, a):
        d = I.t(a["t"])
        return M.strip(I.fr().T, d) if d["k"] in ("lref", "rref") else d

    def exists(I, e, obj, _):
        return rec_get(W(I), "has") if mine(I, e, 0) else I.unk("another file", e)

    def remove(I, e, obj, _):
        if not mine(I, e, 0):
            return I.unk("another file", e)
        put(I, has=FALSE)
        return ONE

    def mkdirs(I, e, obj, _):
        put(I, dir=b_or(rec_get(W(I), "dir"), c_eq(arg(I, e, 0), T("parent_path", R_path(I)))))
        return TRUE

    def parent(I, e, obj, _):
        return lift(lambda x: T("parent_path", x), M.val(I, obj, e))

    def opened(I, e):
        """writing: the file, if its directory exists, is there and empty"""
        ok = rec_get(W(I), "dir") if mine(I, e, 0) else I.unk("another file", e)
        put(I, has=b_or(ok, rec_get(W(I), "has")), text=IN.merge(ok, strc(""), rec_get(W(I), "text")))
        return rec("ofile", {"open": ok})

    def octor(I, e, obj, _):
        return opened(I, e) if e["a"] else rec("ofile", {"open": FALSE})

    def oopen(I, e, obj, _):
        I.store(M.loc_of(I, obj), opened(I, e), e)
        return VOID

    def close(I, e, obj, _):
        v = M.val(I, obj, e)
        if v.tag == "rec" and v.a[0] == "ofile":
            I.store(M.loc_of(I, obj), rec("ofile", {"open": FALSE}), e)
        return VOID

    def ictor(I, e, obj, _):
        ok = rec_get(W(I), "has") if mine(I, e, 0) else I.unk("another file", e)
        return rec("ifile", {"s": IN.merge(ok, rec_get(W(I), "text"), strc(""))})

    def rdbuf(I, e, obj, _):
        v = M.val(I, obj, e)
        return rec_get(v, "s") if v.tag == "rec" and v.a[0] == "ifile" else NotImplemented

    def put_into(I, e, obj, _):
        """stream << text"""
        es = e["a"] if obj is None else [None] + e["a"]
        p = M.loc_of(I, I.eval(es[0])) if obj is None else M.loc_of(I, obj)
        v = I.load(p, e)
        if v.tag == "rec" and v.a[0] == "ofile":
            put(I, text=IN.merge(rec_get(v, "open"), M.strcat(rec_get(W(I), "text"), arg_of(I, es[1], e)), rec_get(W(I), "text")))
            return p
        if v.tag == "rec" and v.a[0] == "stream":
            return M.stream_put(I, p, arg_of(I, es[1], e), e)
        I.eval(es[1])
        return p

    def arg_of(I, a, e):
        return M.val(I, I.eval(a), e)
    O, F_ = "std::basic_ofstream<char>::", "std::basic_ifstream<char>::"
    return {"cpr::transport": transport, "lib:google::protobuf::util::JsonStringToMessage": parse,
            "lib:std::chrono::steady_clock::now": now, "lib:std::chrono::_V2::steady_clock::now": now,
            "lib:std::this_thread::sleep_for": sleep, "lib:std::this_thread::sleep_until": sleep_until,
            "lib:std::filesystem::exists": exists, "lib:std::filesystem::remove_all": remove, "lib:std::filesystem::remove": remove,
            "lib:std::filesystem::create_directories": mkdirs, "lib:std::filesystem::path::parent_path": parent,
            "lib:" + O + "basic_ofstream": octor, "lib:" + O + "open": oopen, "lib:" + O + "close": close, "lib:" + F_ + "close": close,
            "lib:" + F_ + "basic_ifstream": ictor, "lib:" + F_ + "rdbuf": rdbuf,
            "lib:std::operator<<": put_into, "lib:std::basic_ostream<char>::operator<<": put_into}


def run_tokens(ctx):
    cfg = lambda R, n: rec_get(R.val(R.cfg), n)
    OK = num(200)
    field = lambda k, n: T("fld", T("text", num(k)), n)

    def request(R, url, cls, **fields):
        m = M.pb_default(cls)
        for k, v in fields.items():
            m = rec_set(rec_set(m, k, v), "has_" + k, TRUE)
        h = seq([("one", TRUE, rec("pair", {"first": strc("Content-Type"), "second": strc("application/json")}))])
        return rec("cpr::Request", {"method": strc("POST"), "url": M.strcat(cfg(R, "server"), strc(url)), "bearer": strc(""),
                                    "body": T("json", m, TRUE), "header": h})

    def login(R, k, polls):
        """one log-in from request k on: (failure condition, requests, token, seconds)"""
        NS = "resim::auth::proto::"
        parsed = lambda j: bvar(T("parses", T("text", num(j))))
        ser = lambda q: bvar(T("tojsonok", dict(q.a[1])["body"].a[1]))
        q = request(R, "/oauth/device/code", NS + "DeviceCodeRequest", client_id=cfg(R, "client_id"), scope=cfg(R, "scope"), audience=cfg(R, "audience"))
        qs, bad, t = [q], b_not(b_all([ser(q), parsed(k), c_eq(status(k), OK, True)])), 0
        for i, granted in enumerate(polls):
            if t >= EXPIRES:
                break
            p = request(R, "/oauth/token", NS + "PollingRequest", grant_type=strc("urn:ietf:params:oauth:grant-type:device_code"),
                        device_code=field(k, "device_code"), client_id=cfg(R, "client_id"))
            qs.append(p)
            j = k + 1 + i
            bad = b_or(bad, b_not(b_and(ser(p), parsed(j))))
            if granted:
                tok = field(j, "access_token")
                return b_or(bad, c_eq(tok, strc(""))), qs, tok, t
            t += INTERVAL
        return TRUE, qs, None, t

    def f(name, q, has, polls, spec, **kw):
        C = token_contracts(lambda I: I.token_path, polls, **kw)

        def args(R, fn):
            token_world(R, has)
            R.cfg = R.param(fn, 0)
            R.I.token_path = cfg(R, "token_path")
            return [R.cfg]
        ctx.function(name, P + q, spec, contracts=C, args=args)

    def outcome(R, r, asked, tok, t, has=True):
        w = R.I.load(WORLD)
        out = ([("token", R.val(r), tok)] if tok is not None else []) + [
            ("requests made", rec_get(w, "n"), num(len(asked))), ("time spent", rec_get(w, "time"), num(t * 10 ** 9)),
            ("token kept in the file", rec_get(w, "has"), TRUE if has else FALSE)]
        if has:
            out.append(("content of the file", rec_get(w, "text"), tok))
        got = rec_get(w, "asked")
        for j, x in enumerate(asked):
            if got.tag == "seq" and len(got.a) > j or got.tag != "seq":
                y = IN.seq_at(got, num(j))
                for k, v in x.a[1]:
                    out.append(("%s of request %d" % (k, j), part(R, y, k), v))
        return out
    stored = sym("stored")
    good = b_not(c_eq(stored, strc("")))
    for q in ("dc_get", "dc_twice", "dc_restarted"):
        f("a stored token is used without asking (%s)" % q[3:], q, True, [True], lambda R, c: (
            FALSE, lambda R, r: outcome(R, r, [], stored, 0), good))
        for polls in ([True], [False, True], [False, False, False, True]):
            def fetched(R, c):
                bad, qs, tok, t = login(R, 0, polls)
                return bad, lambda R, r: outcome(R, r, qs, tok, t)
            f("without a stored token one log-in fetches and stores it (%s, granted at poll %d)" % (q[3:], len(polls)), q, False, polls, fetched)
    def late(R, c):
        return TRUE, None
    f("a log-in that is never granted fails", "dc_get", False, [False] * 6, late)
    f("a log-in granted too late fails", "dc_get", False, [False] * 4 + [True], late)
    f("a log-in that expires at once fails", "dc_get", False, [True], late, expires=0)
    for has in (True, False):
        def renewed(R, c):
            k, bad, qs, t = 0, FALSE, [], 0
            for _ in range(1 if has else 2):
                b, q1, tok, t1 = login(R, k, [False, True])
                k, bad, qs, t = k + len(q1), b_or(bad, b), qs + q1, t + t1
            return bad, lambda R, r: outcome(R, r, qs, tok, t), good if has else TRUE
        f("after renewal a new log-in fetches and stores the token (%s)" % ("stored before" if has else "fetched before"), "dc_renewed", has, [False, True], renewed)
        f("renewal forgets the stored token (%s)" % ("stored" if has else "none stored"), "dc_refresh", has, [True], lambda R, c: (
            FALSE, lambda R, r: outcome(R, None, [], None, 0, False)))
