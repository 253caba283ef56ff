#!/usr/bin/env python3
"""Writes mc/rectypes_gen.go: all pairs (and some triples) of mutually recursive types.
A node is a struct with one field, or a defined type, of one of the forms below over the next node."""
import os
here = os.path.dirname(os.path.abspath(__file__))
forms = ["*%s", "[]%s", "[]*%s", "map[string]%s", "map[int]*%s", "[1]*%s", "*[1]%s", "[1][]%s", "[]map[int]%s", "%s"]
nodes = [("S", i) for i in range(len(forms))] + [("N", i) for i in range(len(forms)) if forms[i] != "%s"]
def decl(name, node, other):
    k, i = node
    f = forms[i] % other
    return f"type {name} struct{{ X {f} }}" if k == "S" else f"type {name} {f}"
out = ["// Code generated by tools/gen_rectypes.py; DO NOT EDIT.", "", "package main", "", 'import "reflect"', ""]
names = []
def valid(*ns):
    return any(not (k == "S" and forms[i] == "%s") for k, i in ns)
for a in nodes:
    n = f"m1{a[0]}{a[1]}"
    if valid(a):
        out.append(decl(n, a, n)); names.append(n)
for a in nodes:
    for b in nodes:
        if not valid(a, b):
            continue
        na, nb = f"m2{a[0]}{a[1]}{b[0]}{b[1]}a", f"m2{a[0]}{a[1]}{b[0]}{b[1]}b"
        out += [decl(na, a, nb), decl(nb, b, na)]
        names.append(na)
tri = [("S", 0), ("S", 1), ("S", 3), ("S", 9), ("N", 1), ("N", 3)]
for a in tri:
    for b in tri:
        for c in tri:
            if not valid(a, b, c):
                continue
            s = f"m3{a[0]}{a[1]}{b[0]}{b[1]}{c[0]}{c[1]}"
            out += [decl(s + "a", a, s + "b"), decl(s + "b", b, s + "c"), decl(s + "c", c, s + "a")]
            names.append(s + "a")
out += ["", "// recTypes: every self-recursive type, every pair and the chosen triples.", "var recTypes = []reflect.Type{"]
out += [f"\ttypeOf[{n}]()," for n in names]
out += ["}", ""]
open(os.path.join(here, "..", "mc", "rectypes_gen.go"), "w").write("\n".join(out))
print(len(names), "types")
