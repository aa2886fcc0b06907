#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vrun, flsym, buildfl, z3
from flsym import *
import ttcases
from bddcases import *

def body(c):
    exe = buildfl.build(vrun.scratch())
    cs = bool_ops(2) + bool_ops(3) + canonical(2) + canonical(3) + misc()
    if vrun.THOROUGH:
        cs += canonical(4, ("tablast", "mixed"))
    c.functions += ["new_bdd.c: B_And/B_Or/B_Xor/B_Xnor/B_Not/B_Ite, bdd_step, find_insert_bdd", "graph.c: g_b_ite, Is_equal on bool", "Save_BDDs (export)"]
    c.bounds += ["operands: every pair (triple for if-then-else) of Boolean functions of 2 and 3 variables, tabulated by fresh variables; table variables first, last, mixed and reversed in the order"]
    run_cases(c, exe, cs, batch=8)
    c.bounds.append("every pair of the 256 functions of 3 (16 of 2) variables, concretely, through each binary operator and if-then-else, two variable orders")
    run_cases(c, exe, ttcases.bool_pairs(3) + ttcases.bool_pairs(2) + ttcases.big_tables(reorder=False), batch=1)
    run_cases(c, exe, ttcases.big_tables(reorder=False), batch=1, env={"VV_FLARGS": "-s 12"}, suffix="@s12")
    c.bounds.append("5120 functions of 4 variables with the same top variable and 5120 parents of one node (unique-table growth, reference-count saturation), also from a node table of 4096 nodes that has to grow (@s12), built in two ways")

if __name__ == "__main__":
    vrun.main("C01", "BDD operators", body)
