"""Self-test of the analyser (not a registered check): functions eq::NAME_0, eq::NAME_1, ... written in different but
equivalent ways must not be told apart; functions eq::NAME_x must be told apart from eq::NAME_0.
usage: python3 selftest/run.py [name-filter...]"""
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import frontend
from sa.spec import *
from sa.compare import Comparer, Diff


def load():
    pk = os.environ.get("SELFTEST_PROGRAM")       # development: a pickled program to add the idioms to
    if pk:
        import pickle
        prog = pickle.load(open(pk, "rb"))
    else:
        prog = frontend.load()
    with tempfile.TemporaryDirectory() as td:
        ext = frontend.extractor(td)
        gen = os.path.join(td, "gen")
        os.makedirs(gen)
        protos = [p for p in subprocess.check_output(["git", "-C", frontend.REPO, "ls-files", "*.proto"], text=True).split("\n") if p]
        subprocess.check_call(["protoc", "-I.", "--cpp_out=" + gen] + protos, cwd=frontend.REPO)
        d = os.path.join(HERE, "selftest")
        for f in sorted(os.listdir(d)):
            if not f.endswith(".cc"):
                continue
            out = os.path.join(td, f + ".json")
            r = subprocess.run([ext, out, "resim/," + d + "/", os.path.join(d, f), "--"] + frontend.FLAGS + ["-I" + gen], cwd=frontend.REPO,
                               capture_output=True, text=True)
            if r.returncode:
                sys.exit(r.stderr[-3000:])
            prog.add(f, json.load(open(out)))
    return prog


def summary(ctx, f, tag="in"):
    R = Run(ctx, Mode(lifetimes=True), None, tag=tag)
    av = [R.param(f, i, "p%d" % i) for i in range(len(f["params"]))]
    try:
        r = R.I.call(f, None, av)
    except IN.Dead:
        r = None
    out = [("throws", R.thrown())]
    if r is not None and r.tag != "void":
        out.append(("result", R.val(r)))
    for i, a in enumerate(av):
        if R.I.is_ptr(a):
            out.append(("argument %d" % i, R.val(a)))
    for pc, kind, loc in R.I.ub:
        out.append(("ub " + kind, pc))
    return out, R





def main():
    prog = load()
    groups = {}
    for q in prog.byq:
        m = re.match(r"eq::(\w+)_(\d|x)$", q)
        if m and (len(sys.argv) < 2 or any(a in m.group(1) for a in sys.argv[1:])):
            groups.setdefault(m.group(1), []).append(m.group(2))
    bad = und = n = 0
    for g in sorted(groups):
        ctx = Ctx(prog, "X")
        s = {}
        for k in sorted(groups[g]):
            try:
                s[k] = summary(ctx, ctx.fn("eq::%s_%s" % (g, k)), g)
            except Exception as ex:
                print("UNDECIDED %s_%s: %r" % (g, k, ex))
                if os.environ.get("TB"):
                    traceback.print_exc()
                und += 1
        if "0" not in s:
            continue
        s0, R0 = s["0"]
        thr0 = s0[0][1]
        for k in s:
            if k == "0":
                for lab, v in s0:
                    if lab.startswith("ub"):
                        print("note %s_0: %s %s" % (g, lab, str(v)[:200]))
                if R0.I.unsupported or R0.I.lost:
                    print("UNDECIDED %s_0: %s" % (g, R0.I.unsupported[:2]))
                continue
            s1, R1 = s[k]
            n += 1
            C = Comparer()
            res = []
            d0, d1 = dict(s0), dict(s1)
            for lab in d0:
                if lab.startswith("ub"):
                    continue
                care = TRUE if lab == "throws" else b_not(b_or(thr0, s1[0][1]))
                if lab not in d1:
                    continue
                try:
                    res += [(lab, d) for d in C.diff(d0[lab], d1[lab], care)]
                except Exception as ex:
                    res += [(lab, ("undecided", repr(ex)))]
            for lab in d1:
                if lab.startswith("ub"):
                    res += [(lab, d) for d in C.diff(d1[lab], FALSE, TRUE)]
            if R0.I.lost or R1.I.lost:
                res = [(lab, ("undecided", "lost")) for lab, d in res]
            definite = [(l, d) for l, d in res if not (isinstance(d, tuple) or d.kind == "unknown")]
            if k == "x":
                if not definite:
                    print("NOT TOLD APART %s" % g)
                    bad += 1
            elif definite:
                print("FALSE ALARM %s_%s: %s: %s" % (g, k, definite[0][0], str(definite[0][1])[:600]))
                bad += 1
            elif res:
                print("UNDECIDED %s_%s: %s: %s %s" % (g, k, res[0][0], str(res[0][1])[:300], R1.I.unsupported[:2]))
                und += 1
    print("%d comparisons, %d wrong, %d undecided" % (n, bad, und))
    sys.exit(1 if bad else 0)


main()
