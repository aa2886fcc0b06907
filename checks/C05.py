#!/usr/bin/env python3-vt
"""C05: questions about Boolean functions: support, size, cofactors, model counts, sums over assignments"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, buildfl
from flsym import *
from infocases import *

def body(c):
    d = vrun.scratch()
    exe = buildfl.build(d)
    st = buildfl.link_stress(d)
    cs = misc() + support() + fpcounts(step=1 if vrun.THOROUGH else 7)
    g = []
    for s in STYLES:
        for ro in (False, True):
            g += [gen_count(k, fr, s, ro, neg) for k, fr in ((1, 0), (2, 0), (2, 1), (1, 2), (3, 0)) + (((3, 1),) if vrun.THOROUGH else ()) for neg in (False, True)]
            g += [bvsum(k, n, s, ro) for k, n in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3))]
    c.functions += ["new_bdd.c: depends, bdd_size (B_Size), top_cofactor, truth_cover_rec, fp_truth_cover_rec, fp_truth_cover2_rec, do_truth_cover(_n), do_fp_truth_cover(2)_n", "bv.c: gen_model_count_rec, do_gen_model_count, bv_sum, Get_Size_and_Vars"]
    c.bounds += ["every function of 3 variables, every order of the three (declared, and reached by var_order), counted over exactly their variables and over supersets",
                 "generalized count and sum: arbitrary functions of 1-3 counted and 0-2 free variables, tabulated by fresh variables, so the result is decided for all of them at once",
                 "conditional counts: pairs of functions (all 65536 in the thorough tier, every 7th x every 7th otherwise)"]
    run_cases(c, exe, cs, batch=1)
    run_cases(c, exe, g, batch=1)
    for k in (1, 3):
        run_cases(c, st, g[::3] + misc()[-3:], batch=1, env={"VV_GC_EVERY": str(k)}, suffix="@gc%d" % k)

if __name__ == "__main__":
    vrun.main("C05", "questions about Boolean functions", body)
