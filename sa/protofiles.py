"""Message layouts, read from the repository's .proto sources."""
import os
import re

SCALARS = {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
           "sfixed32", "sfixed64", "bool", "string", "bytes"}


def _strip(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"//[^\n]*", " ", t)


def load(repo):
    """{C++ name of the message: [ {name,type,rep,opt,oneof,num} ]}, plus enums"""
    msgs, enums = {}, {}
    for d, ds, fs in os.walk(os.path.join(repo, "resim")):
        for f in fs:
            if f.endswith(".proto"):
                with open(os.path.join(d, f)) as h:
                    parse(_strip(h.read()), msgs, enums)
    msgs["google::protobuf::Timestamp"] = [
        {"name": "seconds", "type": "int64", "rep": False, "opt": False, "oneof": None, "num": 1},
        {"name": "nanos", "type": "int32", "rep": False, "opt": False, "oneof": None, "num": 2}]
    # resolve type names
    for m, fl in msgs.items():
        for x in fl:
            if x["type"] not in SCALARS:
                x["cpp"] = resolve(x["type"], m, msgs, enums)
    return msgs, enums


def resolve(t, scope, msgs, enums):
    flat = t.replace(".", "::")
    cands = []
    ns = scope.split("::")
    cands.append(scope + "_" + t.replace(".", "_"))
    for i in range(len(ns), -1, -1):
        pre = "::".join(ns[:i])
        cands.append((pre + "::" if pre else "") + flat)
        # nested types flatten with an underscore
        if "." in t:
            parts = t.split(".")
            for j in range(1, len(parts)):
                cands.append((pre + "::" if pre else "") + "::".join(parts[:j]) + ("::" if j else "") + "_".join(parts[j - 1:]) )
    for c in cands:
        if c in msgs or c in enums:
            return c
    return flat


def parse(text, msgs, enums):
    pk = re.search(r"package\s+([\w.]+)\s*;", text)
    ns = pk.group(1).replace(".", "::") if pk else ""
    toks = re.findall(r'"[^"]*"|[\w.]+|[{}=;<>,\[\]()-]', text)
    i = 0

    def skip(i):
        depth = 1
        while depth:
            if toks[i] == "{":
                depth += 1
            elif toks[i] == "}":
                depth -= 1
            i += 1
        return i

    def message(i, prefix):
        name = (prefix + "_" if prefix else "") + toks[i]
        i += 2
        fields = []
        full = (ns + "::" if ns else "") + name

        def body(i, oneof):
            while toks[i] != "}":
                t = toks[i]
                if t == ";":
                    i += 1
                elif t == "message":
                    i = message(i + 1, name)
                elif t == "enum":
                    i = enum(i + 1, name)
                elif t == "oneof":
                    i = body(i + 3, toks[i + 1]) + 1
                elif t in ("reserved", "option", "extensions"):
                    while toks[i] != ";":
                        i += 1
                elif t == "map":
                    while toks[i] != ";":
                        i += 1
                else:
                    rep = opt = False
                    if t in ("repeated", "optional", "required"):
                        rep, opt = t == "repeated", t == "optional"
                        i += 1
                    ty, nm = toks[i], toks[i + 1]
                    n = int(toks[i + 3], 0)
                    fields.append({"name": nm.lower(), "type": ty.lstrip("."), "rep": rep, "opt": opt, "oneof": oneof, "num": n})
                    while toks[i] != ";":
                        i += 1
            return i
        i = body(i, None)
        msgs[full] = fields
        return i + 1

    def enum(i, prefix):
        name = (prefix + "_" if prefix else "") + toks[i]
        enums[(ns + "::" if ns else "") + name] = True
        return skip(i + 2)

    while i < len(toks):
        if toks[i] == "message":
            i = message(i + 1, "")
        elif toks[i] == "enum":
            i = enum(i + 1, "")
        elif toks[i] == "service":
            while toks[i] != "{":
                i += 1
            i = skip(i + 1)
        else:
            i += 1
