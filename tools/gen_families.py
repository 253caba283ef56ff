#!/usr/bin/env python3
"""Writes mc/families_gen.go: instances of the C10 type family."""
n = 512
with open("mc/families_gen.go", "w") as f:
    f.write("// Code generated by tools/gen_families.py; DO NOT EDIT.\n\npackage main\n\n")
    f.write("// concFamilies are isomorphic sets of types, so that a first use can happen many times in one process.\n")
    f.write("var concFamilies = [...]func(sh *concShared) []concOp{\n")
    for i in range(n):
        f.write(f"\tconcOps[*[{i}]int],\n")
    f.write("}\n")
