#!/usr/bin/env python3
"""Writes mc/worktypes_gen.go: families of types whose graphs have very many paths (C21)."""
import os
edges = {"S": "[]%s", "P": "*%s", "M": "map[string]%s", "A": "[1]*%s", "Q": "*[]map[int]%s"}
kinds = list(edges)
out = ["// Code generated by tools/gen_worktypes.py; DO NOT EDIT.", "", "package main", "", 'import "reflect"', ""]
fam = []
def edge(kind, i, t):
    return edges[kinds[i % len(kinds)] if kind == "X" else kind] % t
for kind in kinds + ["X"]:
    # cliques: every type refers to every type
    for k in (2, 4, 6, 8, 9, 10, 11, 12, 16, 24):
        for i in range(k):
            n = f"wkC{kind}{k}t{i}"
            out.append(f"type {n} struct {{ " + "; ".join(f"F{j} {edge(kind, i + j, f'wkC{kind}{k}t{j}')}" for j in range(k)) + " }")
        fam.append((f"{k} types that refer to each other, {kind}", f"wkC{kind}{k}t0"))
    # diamonds: every type refers to the next one three times
    for d in (4, 8, 11, 13, 16, 40):
        out.append(f"type wkD{kind}{d}t0 struct {{ A int }}")
        for i in range(1, d + 1):
            out.append(f"type wkD{kind}{d}t{i} struct {{ " + "; ".join(f"{c} {edge(kind, x + i, f'wkD{kind}{d}t{i-1}')}" for x, c in enumerate("ABC")) + " }")
        fam.append((f"{d} levels of types that refer to the next three times, {kind}", f"wkD{kind}{d}t{d}"))
    # every type refers to all later ones, and the last to the first
    for d in (8, 16, 20, 24, 40):
        for i in range(d):
            n = f"wkO{kind}{d}t{i}"
            later = list(range(i + 1, d)) or [0]
            out.append(f"type {n} struct {{ " + "; ".join(f"F{j} {edge(kind, i + j, f'wkO{kind}{d}t{j}')}" for j in later) + " }")
        fam.append((f"{d} types that refer to all later ones, {kind}", f"wkO{kind}{d}t0"))
# defined types that are no structs, around structs
for d in (4, 8, 10, 12, 16):
    for i in range(d):
        out.append(f"type wkN{d}s{i} struct {{ " + "; ".join(f"F{j} wkN{d}l{j}" for j in range(d)) + " }")
        out.append(f"type wkN{d}l{i} []wkN{d}m{i}")
        out.append(f"type wkN{d}m{i} map[string]wkN{d}s{i}")
    fam.append((f"{d} defined slices, maps and structs that refer to each other", f"wkN{d}l0"))
out.append("")
out.append("var workTypes = []struct {\n\tname string\n\tt    reflect.Type\n}{")
for n, t in fam:
    out.append(f'\t{{"{n}", typeOf[{t}]()}},')
out.append("}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "worktypes_gen.go"), "w").write("\n".join(out) + "\n")
