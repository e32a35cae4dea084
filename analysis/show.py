#!/usr/bin/env python3
"""Pretty-prints a dumped MIR body:  show.py DUMP.json FN"""
import json, sys

def pl(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*": s = "(*%s)" % s
        elif e[0] == "f": s += "." + (e[2] or str(e[1]))
        elif e[0] == "i": s += "[_%d]" % e[1]
        elif e[0] == "v": s += "@%s" % (e[2] or e[1])
        else: s += "{%s}" % e
    return s

def op(o):
    if o[0] in "cm": return pl(o[1])
    k = o[1] if len(o) > 1 else None
    if not isinstance(k, dict): return str(o)
    if k.get("k") == "int": return str(k["v"])
    if k.get("k") == "fn": return k.get("res") or k["path"]
    return json.dumps(k)[:120]

def rv(r):
    t = r[0]
    if t == "use": return op(r[1])
    if t == "ref": return "&%s %s" % (r[1], pl(r[2]))
    if t == "bin": return "%s(%s, %s)" % (r[1], op(r[2]), op(r[3]))
    if t == "un": return "%s(%s)" % (r[1], op(r[2]))
    if t == "cast": return "%s as %s [%s]" % (op(r[2]), r[3], r[1])
    if t == "discr": return "discr(%s)" % pl(r[1])
    if t == "agg": return "%s{%s}" % (r[1], ", ".join(op(x) for x in r[2]))
    return json.dumps(r)

def show(f):
    print(f["path"], "args", f["args"], f["span"])
    for n, p in f["names"]: print("   debug", n, pl(p))
    for i, b in enumerate(f["blocks"]):
        if b["cleanup"]: continue
        print(" bb%d:" % i)
        for s in b["s"]:
            if s[0] == "=": print("    %s = %s" % (pl(s[1]), rv(s[2])))
            elif s[0] != "dead": print("    ", s)
        t = b["t"]
        if t[0] == "call":
            print("    %s = %s(%s) -> %s   %s" % (pl(t[3]), op(t[1]), ", ".join(op(a) for a in t[2]), t[4], t[5]))
        elif t[0] == "switch":
            print("    switch %s %s else %s" % (op(t[1]), t[2], t[3]))
        else: print("    ", t)

if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    for k in sys.argv[2:]:
        show(d["fns"][k])
