#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
import ttcases
from bddcases import *
from bvcases import *

def body(c):
    d = vrun.scratch()
    buildfl.build(d)
    exe = buildfl.link_stress(d)
    L = Lib("bv")
    cs = bool_ops(2) + canonical(2) + quant(3) + subst() + misc()
    for n in (1, 2, 3):
        cs += unary_ops(L, n) + shared_ops(L, n, [3, -3], 6)
        for m in (1, 2, 3):
            cs += bin_ops(L, n, m, 6)
    c.functions += ["new_bdd.c: garbage collection of the node table (Do_gc_asap), operation caches across collections, unique tables", "all BDD operations the cases use"]
    c.bounds += ["a collection of the BDD tables is requested after every k-th BDD operation or graph allocation, k as listed in the obligation names (@gcK_0)",
                 "operands: every pair of functions of 2 variables; quantification over every function of 3; bit-vectors of width 1..3"]
    c.assumptions.append("collections are requested between interpreter operations through the documented request flag (linker wrap of B_And etc.); no source change")
    for k in ((997, 4001) if not vrun.THOROUGH else (499, 997, 1999, 4001)):
        run_cases(c, exe, ttcases.big_tables(reorder=False), batch=1, env={"VV_GC_EVERY": str(k), "VV_FLARGS": "-s 12"}, suffix="@s12gc%d_0" % k)
    c.bounds.append("10240 functions of 5 variables alive across collections (unique-table growth, reference-count saturation)")
    for k in ((1, 2, 3, 5, 7) if not vrun.THOROUGH else (1, 2, 3, 4, 5, 7, 11, 13)):
        run_cases(c, exe, cs, batch=8, env={"VV_GC_EVERY": str(k)}, suffix="@gc%d_0" % k)

if __name__ == "__main__":
    vrun.main("C02", "BDD collection", body)
