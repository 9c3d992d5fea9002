"""python3 -m sa.run <PROPERTY> [--tier quick|thorough] : decide one property on /repo's current source."""
import importlib
import json
import os
import pickle
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "sa.run"] + sys.argv[1:])

from . import frontend
from .props import PROPS
from .spec import Ctx

VERIF = frontend.VERIF


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property="):
                head, _, what = line.partition(" :: ")
                pid = head.split("property=")[1].split()[0]
                ob = head.split("obligation=", 1)[1].strip()
                out.append((pid, ob, what))
    return out


def run_specs(ctx, prop):
    for mod in prop["specs"]:
        name, _, fn = mod.partition(":")
        m = importlib.import_module("sa.specs." + name)
        getattr(m, fn or "run")(ctx)


def run_sharded(prog, prop, tier):
    """the obligations are independent: decide them in parallel worker processes"""
    workers = max(1, min(8, os.cpu_count() or 1))
    pid = prop["id"]
    jobs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for i in range(workers):
        r, w = os.pipe()
        child = os.fork()
        if child == 0:
            code = 1
            try:
                os.close(r)
                ctx = Ctx(prog, pid, tier)
                ctx.shard = (i, workers)
                run_specs(ctx, prop)
                with os.fdopen(w, "wb") as fh:
                    pickle.dump((ctx.results, ctx.cmp_stats, ctx.visited, ctx.unmodelled, ctx.count), fh)
                code = 0
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        jobs.append((child, r))
    ctx = Ctx(prog, pid, tier)
    for child, r in jobs:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(child, 0)
        if not data:
            ctx.results.append(dict(obligation="worker", status="undecided", detail=["worker process ended early"], ordinal=10**9, wall_s=0))
            continue
        results, stats, visited, unmod, count = pickle.loads(data)
        ctx.results += results
        for k, v in stats.items():
            ctx.cmp_stats[k] = ctx.cmp_stats.get(k, 0) + v
        ctx.visited |= visited
        for k, v in unmod.items():
            ctx.unmodelled[k] = ctx.unmodelled.get(k, 0) + v
    ctx.results.sort(key=lambda r: r.get("ordinal", 0))
    return ctx


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    prop = PROPS[pid]
    prog = frontend.load()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    bad_probe = [n for n in prog.failed if n.startswith("probe:")]
    if prog.failed:
        for n, e in prog.failed.items():
            print("note: cannot parse %s: %s" % (n, e[-400:]), file=sys.stderr)
    ctx = run_sharded(prog, prop, tier)
    known = known_findings()
    viol, kn = [], []
    for r in ctx.results:
        if r["status"] == "violated":
            k = [x for x in known if x[0] == pid and x[1] == r["obligation"]]
            if k:
                kn.append((r, k[0][2]))
            else:
                viol.append(r)
    und = [r for r in ctx.results if r["status"] == "undecided"]
    n = len(ctx.results)
    files = sorted(set(k.split("(")[0] for k in ctx.visited))
    cov = dict(
        explanation="Static analysis of the current source: %s. Each obligation states, for every input satisfying its "
                    "precondition, exactly when the operation fails and what it returns or leaves behind (or a rule on the "
                    "program's structure); 'discharged' means the source's value-flow summary has the required normal form "
                    "in every region. 'undecided' obligations (constructs the analysis does not model) are listed and never reported." % prop["rule"],
        obligations=n, discharged=n - len(und) - len(viol) - len(kn),
        undecided=[dict(obligation=r["obligation"], why=r["detail"][:1]) for r in und],
        functions_analysed=len(ctx.visited), translation_units=len(prog.tus),
        value_comparisons=ctx.cmp_stats["comparisons"], differing_regions_examined=ctx.cmp_stats["regions"],
        regions_equal_by_evaluation=ctx.cmp_stats["equal_by_eval"],
        unmodelled_constructs=len(ctx.unmodelled),
        unmodelled=list(ctx.unmodelled)[:20],
        samples=[{k: v for k, v in r.items() if k in ("obligation", "where", "function", "status")} for r in ctx.results[:40]],
        analysed_sample=files[:60],
    )
    doc = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other", coverage=cov,
               assumptions=prop.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(ev, pid + ".json"), "w") as fh:
        json.dump(doc, fh, indent=1)
    for r, what in kn:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, what or r["obligation"], r["obligation"]))
    for r in viol:
        print("%s: %s [%s]" % (r["obligation"], r.get("where", ""), "; ".join(r["detail"])[:2000]))
    if viol:
        rp = os.path.join(ev, pid + ".violations.json")
        with open(rp, "w") as fh:
            json.dump(viol, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if bad_probe:
        print("note: cannot parse the entry points: %s" % bad_probe)
    if n == 0 or len(und) == n:
        print("no obligation of %s could be decided" % pid)
        sys.exit(2)
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings (%.1fs)" % (
        pid, n, cov["discharged"], len(und), len(kn), time.time() - t0))


main()
