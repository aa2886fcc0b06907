#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
import ttcases
from bddcases import *
from bvcases import *

def body(c):
    d = vrun.scratch()
    exe0 = buildfl.build(d)
    exe = buildfl.link_stress(d)
    cs = perms(3) + reorder(k=1) + reorder(k=2)
    run_cases(c, exe0, cs, batch=4)
    run_cases(c, exe0, ttcases.big_tables(), batch=1)
    run_cases(c, exe0, ttcases.big_tables(), batch=1, env={"VV_FLARGS": "-s 12"}, suffix="@s12")
    for k in ((997,) if not vrun.THOROUGH else (499, 997, 4999)):
        run_cases(c, exe, ttcases.big_tables(), batch=1, env={"VV_GC_EVERY": str(k), "VV_REORDER": "1"}, suffix="@gc%d_1" % k)
    c.bounds.append("10240 functions of 5 variables sharing one top variable and one child (unique-table growth, reference-count saturation), before and after two explicit orders")
    L = Lib("bv")
    ds = bool_ops(2) + canonical(2) + quant(3) + subst() + misc() + perms(3) + reorder()
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            ds += bin_ops(L, n, m, 6)
    c.functions += ["new_bdd.c: dynamic reordering (sifting, swap_down), var_order, bdd_reorder, operations after a reordering"]
    c.bounds += ["every permutation of 3 variables as new explicit order (first, last or partial among up to 8 table variables), over every pair of functions of 2 variables",
                 "a dynamic reordering with each collection requested after every k-th operation (@gcK_1)"]
    c.assumptions.append("reorderings are requested between interpreter operations through the documented request flag and thresholds (linker wrap); no source change")
    for k in ((2, 5, 13) if not vrun.THOROUGH else (1, 2, 3, 5, 7, 13, 29)):
        run_cases(c, exe, ds, batch=8, env={"VV_GC_EVERY": str(k), "VV_REORDER": "1"}, suffix="@gc%d_1" % k)

if __name__ == "__main__":
    vrun.main("C03", "BDD reordering", body)
