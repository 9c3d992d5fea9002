"""Front end: build the extractor, generate protobuf headers, extract the program."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "extractor", "extract.cc")
BIN = os.path.join(VERIF, "bin", "extract")

FLAGS = ["-nostdinc++", "-cxx-isystem", "/usr/include/c++/12",
         "-cxx-isystem", "/usr/include/x86_64-linux-gnu/c++/12",
         "-std=c++20", "-fPIC", "-I.", "-I/usr/include/eigen3",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w"]


class FrontendError(Exception):
    pass


def _hash():
    return hashlib.sha256(open(SRC, "rb").read()).hexdigest()


def _runs(path):
    try:
        return subprocess.run([path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 2
    except OSError:
        return False


def extractor(scratch):
    """path of an extractor built from the committed source"""
    try:
        if open(BIN + ".sha256").read().strip() == _hash() and _runs(BIN):
            return BIN
    except OSError:
        pass
    out = os.path.join(scratch, "extract")
    build_extractor(out)
    return out


def build_extractor(out):
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    flags = [f for f in flags if not f.startswith("-std=") and f != "-fno-exceptions"]
    subprocess.check_call(["clang++-18", "-std=c++17", "-O1", "-fno-rtti"] + flags +
                          [SRC, "-o", out, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])


EXCLUDE = ("_test.cc", "_test_helper.cc", "_test_helpers.cc", "test_helpers.cc")


def repo_tus():
    out = subprocess.check_output(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "resim"], text=True).split("\n")
    tus = []
    for f in out:
        if not f.endswith(".cc") or not os.path.exists(os.path.join(REPO, f)):
            continue
        if f.endswith(EXCLUDE) or "/examples/" in f or "/view_server/" in f:
            continue
        if f.endswith("mock_server.cc"):
            continue
        tus.append(f)
    return sorted(tus)


class Program:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.tus = []
        self.failed = {}
        self.byq = {}

    def add(self, tu, data):
        T = data["types"]
        self.tus.append(tu)
        for k, f in data["functions"].items():
            if k in self.functions and ("body" in self.functions[k] or "body" not in f):
                continue
            f["_T"] = T
            f["_tu"] = tu
            self.functions[k] = f
            self.byq.setdefault(f["q"], []).append(k)
        for k, r in data["records"].items():
            if k in self.records and len(self.records[k].get("methods", ())) >= len(r.get("methods", ())):
                continue
            r["_T"] = T
            self.records[k] = r
        for k, g in data["globals"].items():
            if k in self.globals and "init" in self.globals[k]:
                continue
            g["_T"] = T
            self.globals[k] = g
        self.enums.update(data["enums"])


def load(tus=None, probes=None, quiet=True):
    """extract the given TUs (default: every non-test source of the repository)"""
    if probes is None:
        probes = sorted(f for f in os.listdir(os.path.join(VERIF, "probe")) if f.endswith(".cc"))
    scratch = tempfile.mkdtemp(prefix="verif_sa_")
    try:
        ext = extractor(scratch)
        gen = os.path.join(scratch, "gen")
        os.makedirs(gen)
        protos = [p for p in subprocess.check_output(
            ["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "*.proto"], text=True).split("\n")
            if p and os.path.exists(os.path.join(REPO, p))]
        r = subprocess.run(["protoc", "-I.", "--cpp_out=" + gen] + protos, cwd=REPO, capture_output=True, text=True)
        if r.returncode:
            raise FrontendError("protoc failed: " + r.stderr)
        allt = repo_tus()
        if tus is None:
            sel = allt
        else:
            sel = [t for t in allt if any(t.startswith(p) for p in tus)]
        jobs = [(t, t) for t in sel] + [("probe:" + p, os.path.join(VERIF, "probe", p)) for p in probes]
        flags = FLAGS + ["-I" + gen, "-I" + os.path.join(VERIF, "stubs")]

        cache = os.environ.get("VERIF_XCACHE")     # development only: reuse extraction results of identical inputs
        hh = hashlib.sha256()
        if cache:
            for f in sorted(subprocess.check_output(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "resim"], text=True).split("\n")):
                if f.endswith((".hh", ".proto", ".h")):
                    hh.update(open(os.path.join(REPO, f), "rb").read())
            hh.update(_hash().encode())

        def one(i_job):
            i, (name, src) = i_job
            out = os.path.join(scratch, "o%d.json" % i)
            if cache:
                full = src if os.path.isabs(src) else os.path.join(REPO, src)
                ck = os.path.join(cache, hashlib.sha256(hh.digest() + name.encode() + open(full, "rb").read()).hexdigest())
                if not os.path.exists(ck):
                    r = subprocess.run([ext, ck + ".tmp%d" % os.getpid(), "resim/," + VERIF + "/probe/," + VERIF + "/stubs/", src, "--"] + flags, cwd=REPO,
                                       capture_output=True, text=True)
                    if r.returncode:
                        return name, None, r.stderr[-3000:]
                    os.rename(ck + ".tmp%d" % os.getpid(), ck)
                return name, json.load(open(ck)), ""
            r = subprocess.run([ext, out, "resim/," + VERIF + "/probe/," + VERIF + "/stubs/", src, "--"] + flags, cwd=REPO,
                               capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                return name, None, r.stderr[-3000:]
            with open(out) as fh:
                d = json.load(fh)
            os.unlink(out)
            return name, d, ""

        prog = Program()
        with ThreadPoolExecutor(8) as ex:
            for name, d, err in ex.map(one, enumerate(jobs)):
                if d is None:
                    prog.failed[name] = err
                else:
                    prog.add(name, d)
        prog.protos = {p: open(os.path.join(REPO, p)).read() for p in protos}
        return prog
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def compiles(text):
    """does this source compile against the repository's headers (without generated ones); returns (bool, first error)"""
    with tempfile.TemporaryDirectory(prefix="verif_sa_") as d:
        f = os.path.join(d, "w.cc")
        open(f, "w").write(text)
        r = subprocess.run(["clang++-18", "-fsyntax-only"] + FLAGS + ["-I" + os.path.join(VERIF, "stubs"), f], cwd=REPO, capture_output=True, text=True)
        err = [l for l in r.stderr.split("\n") if "error:" in l]
        return r.returncode == 0, (err[0] if err else "")


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        build_extractor(BIN)
        subprocess.call(["strip", BIN])
        open(BIN + ".sha256", "w").write(_hash() + "\n")
    else:
        import time
        t = time.time()
        p = load()
        print(len(p.functions), "functions", len(p.tus), "TUs", "%.1fs" % (time.time() - t))
        for k, v in p.failed.items():
            print("FAILED", k, v)
